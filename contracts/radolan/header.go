//go:build verif

package radolan

// Contracts of header.go: the field splitter and the header parser.

// ---------------------------------------------------------------- header fields

//@ pure ascii(h) = forall i :: 0 <= i && i < len(h) ==> h[i] < 128
// A header is split into fields: a maximal run of upper-case letters (name), then the text up
// to the next upper-case letter (content). For the prefix of i bytes:
// f_key(h, i) / f_val(h, i): where the name and the content of the last field start
//@ rec f_key(h string, i int) int = i <= 1 ? 0 : (isupper(h[i-1]) && !isupper(h[i-2]) ? i-1 : f_key(h, i-1))
//@ rec f_val(h string, i int) int = i <= 0 ? 0 : (isupper(h[i-1]) ? i : f_val(h, i-1))
//@ pure f_name(h, i) = h[f_key(h, i):f_val(h, i)]
// f_done(h, i, k): a field called k before the last one; f_text: the content of the latest one
//@ rec f_done(h string, i int, k string) bool
//@   = i <= 1 ? false : (isupper(h[i-1]) && !isupper(h[i-2]) && k == f_name(h, i-1)) || f_done(h, i-1, k)
//@ rec f_text(h string, i int, k string) string
//@   = i <= 1 ? "" : (isupper(h[i-1]) && !isupper(h[i-2]) && k == f_name(h, i-1) ? h[f_val(h, i-1):i-1] : f_text(h, i-1, k))
//@ opaque has_field(h string, k string) bool = k == f_name(h, len(h)) || f_done(h, len(h), k)
//@ opaque field(h string, k string) string = k == f_name(h, len(h)) ? h[f_val(h, len(h)):len(h)] : f_done(h, len(h), k) ? f_text(h, len(h), k) : ""

//@ opaque wellformed_header(h string) bool = len(h) > 0 && ascii(h) && isupper(h[0])

//@ func radolan.splitHeader(header string) (m map[string]string)
//@ reveal has_field field wellformed_header
//@ invariant with (m map[string]string) ascii(header) && isupper(header[0]) ==> forall k string :: has(m, k) == f_done(header, $n, k)
//@ invariant with (m map[string]string) ascii(header) && isupper(header[0]) ==> forall k string :: f_done(header, $n, k) ==> m[k] == f_text(header, $n, k)
//@ invariant with (p int) ascii(header) ==> p == $n
//@ invariant with (p int) ascii(header) && isupper(header[0]) && len(header) > 0 ==> p == f_key(header, $n)
//@ invariant with (p int) ascii(header) && isupper(header[0]) && len(header) > 0 ==> p == f_val(header, $n)
//@ invariant with (p int) ascii(header) && isupper(header[0]) && $n > 0 && !isupper(header[$n-1]) ==> p == f_val(header, $n)
//@ invariant with (p int) ascii(header) && isupper(header[0]) && $n > 0 && !isupper(header[$n-1]) ==> p == $n
//@ invariant with (d bool) ascii(header) && isupper(header[0]) ==> d == ($n > 0 && !isupper(header[$n-1]))
//@ ensures m != nil
//@ ensures [C03] wellformed_header(header) ==> forall k string :: has(m, k) == has_field(header, k)
//@ ensures [C03] wellformed_header(header) ==> forall k string :: has_field(header, k) ==> m[k] == field(header, k)
//@ ensures [C03] wellformed_header(header) ==> forall k string :: !has_field(header, k) ==> m[k] == field(header, k)

// ---------------------------------------------------------------- header parser

// the header: everything up to and including the byte 0x03
//@ pure hdr(S, P) = sstr(S, P, sfind(S, P, 3) + 1 - P)
//@ pure text(S, P) = hdr(S, P)[0:len(hdr(S, P))-1]
//@ pure hdr_ok(S, P) = sfind(S, P, 3) < len(S) && len(hdr(S, P)) >= 22
//@ pure plain(S, P) = wellformed_header(text(S, P))
//@ pure num_ok(h, k) = scan_ok("%d", field(h, k))
//@ pure num(h, k) = scan_int("%d", 0, field(h, k))
//@ pure date(H) = H[2:8] + H[13:17]
//@ pure is_w(p) = p == "W1" || p == "W2" || p == "W3" || p == "W4"
//@ pure dims_gp(h) = has_field(h, "GP")
//@ pure dims_bg(h) = !has_field(h, "GP") && has_field(h, "BG")
//@ pure dims_cat(h) = !has_field(h, "GP") && !has_field(h, "BG")
//@ pure small(v) = -100000000 <= v && v <= 100000000

// what the read fails for, given a complete header
//@ pure dim_x(h, p) = dims_gp(h) ? scan_int("%dx%d", 1, field(h, "GP")) : dims_bg(h) ? scan_int("%3d%3d", 1, field(h, "BG")) : 200
//@ pure dim_y(h, p) = dims_gp(h) ? scan_int("%dx%d", 0, field(h, "GP")) : dims_bg(h) ? scan_int("%3d%3d", 0, field(h, "BG")) : 200
//@ pure plain_y(h, p) = dims_cat(h) ? cat_py(p) : dim_y(h, p)
//@ pure dims_ok(h, p) = (dims_gp(h) ? scan_ok("%dx%d", field(h, "GP")) : dims_bg(h) ? scan_ok("%3d%3d", field(h, "BG")) : catalogued(p))
//@   && 1 <= dim_x(h, p) && dim_x(h, p) <= 16384 && 1 <= dim_y(h, p) && dim_y(h, p) <= 16384
//@ pure lv_n(h) = scan_int("%d", 0, field(h, "LV")[0:2])
//@ pure lv_item(h, i) = field(h, "LV")[2+5*i:7+5*i]
//@ pure level_ok(h) = !has_field(h, "LV") || (len(field(h, "LV")) >= 2 && scan_ok("%d", field(h, "LV")[0:2]) && len(field(h, "LV")) == 5*lv_n(h) + 2
//@   && (forall i :: 0 <= i && i < lv_n(h) ==> scan_ok("%f", lv_item(h, i))))
//@ pure fields_ok(h, H) = num_ok(h, "BY") && tparse_ok("0215040106", date(H)) && (!has_field(h, "VV") || num_ok(h, "VV"))
//@   && (!has_field(h, "INT") || num_ok(h, "INT")) && (!has_field(h, "E") || num_ok(h, "E")) && (!has_field(h, "VS") || num_ok(h, "VS"))

//@ func (*radolan.Composite).parseHeader(c *radolan.Composite, reader *bufio.Reader) (err error)
//@ requires c != nil && reader != nil
//@ timeout 20000
//@ modifies c.Product, c.DataUnit, c.dataLength, c.CaptureTime, c.ForecastTime, c.Interval, c.Px, c.Py, c.Dx, c.Dy, c.Rx, c.Ry, c.precision, c.level, c.Format, pos(reader)
//@ invariant plain(stream(reader), old(pos(reader))) && has_field(h, "LV") ==> forall i :: 0 <= i && i < $n ==>
//@   scan_ok("%f", lv_item(h, i)) && c.level[i] == scan_f32("%f", 0, lv_item(h, i))
//@ invariant with (l []float32) plain(stream(reader), old(pos(reader))) && has_field(h, "LV") ==> forall i :: 0 <= i && i < $n ==>
//@   scan_ok("%f", lv_item(h, i)) && l[i] == scan_f32("%f", 0, lv_item(h, i))
//
//@ let H = hdr(stream(reader), old(pos(reader)))
//@ let h = text(stream(reader), old(pos(reader)))
//@ let good = err == nil && plain(stream(reader), old(pos(reader)))
//
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C02] err == nil ==> hdr_ok(stream(reader), old(pos(reader)))
//@ ensures [C08] err == nil ==> pos(reader) == sfind(stream(reader), old(pos(reader)), 3) + 1
//@ ensures [C02] err == nil ==> c.Product == H[0:2]
//@ ensures [C02] err == nil ==> c.DataUnit == unit_of(c.Product)
//@ ensures [C02] err == nil ==> c.CaptureTime == tparse("0215040106", date(H))
//@ ensures [C02,C03,C04] plain(stream(reader), old(pos(reader))) && hdr_ok(stream(reader), old(pos(reader)))
//@   ==> (err == nil <==> fields_ok(h, H) && dims_ok(h, H[0:2]) && level_ok(h))
//@ ensures [C04] err == nil ==> 1 <= c.Dx && c.Dx <= 16384 && 1 <= c.Dy && c.Dy <= 16384 && c.Px == c.Dx && c.Dy <= c.Py && c.Py <= 16384
//@ ensures [C09,C03] good && small(num(h, "BY")) ==> c.dataLength == num(h, "BY") - len(H)
//@ ensures [C02,C03] good && !has_field(h, "VV") ==> c.ForecastTime == c.CaptureTime
//@ ensures [C02,C03] good && has_field(h, "VV") && small(num(h, "VV")) ==> c.ForecastTime == tadd(c.CaptureTime, 60000000000 * num(h, "VV"))
//@ ensures [C02,C03] good && !has_field(h, "INT") ==> c.Interval == old(c.Interval)
//@ ensures [C02,C03] good && has_field(h, "INT") && -15000000 <= num(h, "INT") && num(h, "INT") <= 15000000
//@   ==> c.Interval == (is_w(c.Product) ? 600000000000 : 60000000000) * num(h, "INT")
//@ ensures [C02,C03] good ==> c.precision == (has_field(h, "E") ? num(h, "E") : old(c.precision))
//@ ensures [C02,C03] good ==> c.Format == (has_field(h, "VS") ? num(h, "VS") : old(c.Format))
//@ ensures [C02,C03,C09] good && !has_field(h, "LV") ==> c.level == old(c.level)
//@ ensures [C02,C03,C07,C09] good && has_field(h, "LV") ==> c.level != nil && fresh(c.level) && len(c.level) == lv_n(h)
//@   && (forall i :: 0 <= i && i < lv_n(h) ==> c.level[i] == scan_f32("%f", 0, lv_item(h, i)))
//@ ensures [C03,C04] good ==> c.Dx == dim_x(h, c.Product) && c.Dy == dim_y(h, c.Product) && c.Px == dim_x(h, c.Product) && c.Py == plain_y(h, c.Product)
//@ ensures [C03,C04,C13] good && dims_cat(h) ==> c.Rx == cat_res(c.Product) && c.Ry == cat_res(c.Product)
//@ ensures [C03,C04,C13] good && !dims_cat(h) ==> c.Rx == old(c.Rx) && c.Ry == old(c.Ry)
