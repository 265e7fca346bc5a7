//go:build verif

package radolan

// Contracts of radolan.go: the public entry points.

// the properties about each field: who bears a write by a function that should not write it
//@ fields C02: Product, DataUnit, CaptureTime, ForecastTime, Interval, Format, precision, level
//@ fields C04: Px, Py, Dx, Dy, Rx, Ry
//@ fields C08, C10: PlainData
//@ fields C09: dataLength, level
//@ fields C10: DataZ, Data, Dz
//@ fields C13: HasProjection
//@ fields C14: Rx, Ry, offx, offy, proj_wgs84

// every layer covers the raster
//@ pure wellformed(c) = c.Dz <= 0 || (c.Dz <= len(c.DataZ)
//@   && (forall z :: 0 <= z && z < c.Dz ==> c.Dy <= len(c.DataZ[z]))
//@   && (forall z, y :: 0 <= z && z < c.Dz && 0 <= y && y < c.Dy ==> c.Dx <= len(c.DataZ[z][y])))

//@ func (*radolan.Composite).AtZ(c *radolan.Composite, x int, y int, z int) (v float32)
//@ public
//@ requires c != nil && wellformed(c)
//@ ensures [C11] 0 <= x && x < c.Dx && 0 <= y && y < c.Dy && 0 <= z && z < c.Dz ==> v == c.DataZ[z][y][x]
//@ ensures [C11] !(0 <= x && x < c.Dx && 0 <= y && y < c.Dy && 0 <= z && z < c.Dz) ==> v == NaN32

//@ func (*radolan.Composite).At(c *radolan.Composite, x int, y int) (v float32)
//@ public
//@ requires c != nil && wellformed(c)
//@ ensures [C11] 0 <= x && x < c.Dx && 0 <= y && y < c.Dy && 0 < c.Dz ==> v == c.DataZ[0][y][x]
//@ ensures [C11] !(0 <= x && x < c.Dx && 0 <= y && y < c.Dy && 0 < c.Dz) ==> v == NaN32

//@ func radolan.NewDummy(product string, format int, dx int, dy int) (comp *radolan.Composite)
//@ public
//@ ensures [C13,C14,C18] comp != nil && fresh(comp) && comp.Product == product && comp.Format == format && comp.Dx == dx && comp.Dy == dy
//@ ensures [C01,C11] comp.Dz == 0
//@ ensures [C13] comp.HasProjection == projectable(dx, dy, format)
//@ ensures [C13] !comp.HasProjection ==> isnan(comp.Rx) && isnan(comp.Ry)
//@ ensures [C14] comp.HasProjection ==> projection_set(comp)

//@ func radolan.NewComposite(rd io.Reader) (comp *radolan.Composite, err error)
//@ public
//@ requires rd != nil
//@ modifies ver(rd)
//@ let S = old(content(rd))
//@ let P = sfind(S, 0, 3) + 1
//@ let H = hdr(S, 0)
//@ let h = text(S, 0)
//@ let ok = err == nil || err == ErrUnknownUnit
//@ let good = ok && plain(S, 0)
//
//@ ensures [C01,C18,use] comp != nil && fresh(comp)
//@ ensures [C01,C11] wellformed(comp)
//@ ensures [C02,use] ok ==> hdr_ok(S, 0) && comp.Product == H[0:2] && comp.DataUnit == unit_of(comp.Product)
//@ ensures [C02,use] ok ==> (err == ErrUnknownUnit <==> comp.DataUnit == Unit_unknown)
//@ ensures [C02] ok ==> comp.CaptureTime == tparse("0215040106", date(H))
//@ ensures [C02] good && !has_field(h, "VV") ==> comp.ForecastTime == comp.CaptureTime
//@ ensures [C02] good && has_field(h, "VV") && small(num(h, "VV")) ==> comp.ForecastTime == tadd(comp.CaptureTime, 60000000000 * num(h, "VV"))
//@ ensures [C02] good && !has_field(h, "INT") ==> comp.Interval == 0
//@ ensures [C02] good && has_field(h, "INT") && -15000000 <= num(h, "INT") && num(h, "INT") <= 15000000
//@   ==> comp.Interval == (is_w(comp.Product) ? 600000000000 : 60000000000) * num(h, "INT")
//@ ensures [C02] good ==> comp.precision == (has_field(h, "E") ? num(h, "E") : 0)
//@ ensures [C02] good ==> comp.Format == (has_field(h, "VS") ? num(h, "VS") : 0)
//@ ensures [C02,C09] good && !has_field(h, "LV") ==> comp.level == nil
//@ ensures [C02,C07,C09] good && has_field(h, "LV") ==> comp.level != nil && len(comp.level) == lv_n(h)
//@   && (forall i :: 0 <= i && i < lv_n(h) ==> comp.level[i] == scan_f32("%f", 0, lv_item(h, i)))
//@ ensures [C04] good ==> comp.Dx == dim_x(h, comp.Product) && comp.Dy == dim_y(h, comp.Product) && comp.Px == dim_x(h, comp.Product) && comp.Py == plain_y(h, comp.Product)
//@ ensures [C04] ok ==> 1 <= comp.Dx && comp.Dx <= 16384 && 1 <= comp.Dy && comp.Dy <= comp.Py && comp.Py <= 16384 && comp.Px == comp.Dx
//@ ensures [C04] good && !comp.HasProjection && dims_cat(h) && !feq(cat_res(comp.Product), 0.0) ==> comp.Rx == cat_res(comp.Product) && comp.Ry == cat_res(comp.Product)
//@ ensures [C13] good && !comp.HasProjection && !(dims_cat(h) && !feq(cat_res(comp.Product), 0.0)) ==> isnan(comp.Rx) && isnan(comp.Ry)
//@ ensures [C13] ok ==> comp.HasProjection == projectable(comp.Dx, comp.Dy, comp.Format)
//@ ensures [C13] !ok ==> !comp.HasProjection
//@ ensures [C14] comp.HasProjection ==> projection_set(comp)
//@ ensures [C08,C09] ok && enc_rl(comp) ==> !rl_fail(S, P, comp.Py, comp.Px)
//@ ensures [C08,C09] ok && enc_le(comp) ==> P + 2*(comp.Px*comp.Py) <= len(S)
//@ ensures [C08,C09] ok && enc_sb(comp) ==> P + comp.Px*comp.Py <= len(S)
//@ ensures [C09] ok ==> enc_rl(comp) || enc_le(comp) || enc_sb(comp)
//@ ensures [C09] good && small(num(h, "BY")) ==> comp.dataLength == num(h, "BY") - len(H)
//@ ensures [C08,C10] ok ==> len(comp.PlainData) == comp.Py && (forall y :: 0 <= y && y < comp.Py ==> len(comp.PlainData[y]) == comp.Px)
//@ ensures [C08] ok ==> forall y, z :: 0 <= y && y < z && z < comp.Py ==> ref(comp.PlainData[y]) != ref(comp.PlainData[z])
//@ ensures [C07,C08] ok && enc_rl(comp) ==> forall k, x :: 0 <= k && k < comp.Py && 0 <= x && x < comp.Px
//@   ==> comp.PlainData[k][x] == rl_cell(comp, S, P, k, x)
//@ ensures [C05,C08] ok && enc_le(comp) ==> forall k, x :: 0 <= k && k < comp.Py && 0 <= x && x < comp.Px
//@   ==> comp.PlainData[comp.Py-1-k][x] == le_cell(comp, S, P, k, x)
//@ ensures [C06,C08] ok && enc_sb(comp) ==> forall k, x :: 0 <= k && k < comp.Py && 0 <= x && x < comp.Px
//@   ==> comp.PlainData[comp.Py-1-k][x] == sb_cell(comp, S, P, k, x)
//@ ensures [C10] ok ==> comp.Dz == (layered(comp) ? comp.Py / comp.Dy : 1) && len(comp.DataZ) == comp.Dz
//@ ensures [C10] ok ==> forall z :: 0 <= z && z < comp.Dz ==> len(comp.DataZ[z]) == comp.Dy
//@ ensures [C10] ok && layered(comp) ==> forall z, y :: 0 <= z && z < comp.Dz && 0 <= y && y < comp.Dy ==> comp.DataZ[z][y] == comp.PlainData[comp.Dy*z + y]
//@ ensures [C10] ok && !layered(comp) ==> forall y :: 0 <= y && y < comp.Dy ==> comp.DataZ[0][y] == comp.PlainData[comp.Py - comp.Dy + y]
//@ ensures [C10] ok ==> len(comp.Data) == comp.Dy && ref(comp.Data) == ref(comp.DataZ[0]) && off(comp.Data) == off(comp.DataZ[0])
//@ ensures [C02,C04,C08,C09,use] plain(S, 0) && hdr_ok(S, 0) && fields_ok(h, H) && dims_ok(h, H[0:2]) && level_ok(h) && small(num(h, "BY"))
//@   ==> (ok <==> data_ok(S, P, h, H))

// ghost attributes of a composite that was read: what it was read from, and its state then
//@ ghost src(comp) == S && srcver(comp) == old(ver(rd))
//@ ghost unchanged(comp)
//@ pure unchanged(c) = asread(c.Product) == c.Product && asread(c.DataUnit) == c.DataUnit && asread(c.CaptureTime) == c.CaptureTime
//@   && asread(c.ForecastTime) == c.ForecastTime && asread(c.Interval) == c.Interval && asread(c.Format) == c.Format
//@   && asread(c.Px) == c.Px && asread(c.Py) == c.Py && asread(c.Dx) == c.Dx && asread(c.Dy) == c.Dy && asread(c.Dz) == c.Dz
//@   && asread(c.Rx) == c.Rx && asread(c.Ry) == c.Ry && asread(c.HasProjection) == c.HasProjection
//@   && asread(c.offx) == c.offx && asread(c.offy) == c.offy && asread(c.proj_wgs84) == c.proj_wgs84
//@   && asread(c.PlainData) == c.PlainData && asread(c.DataZ) == c.DataZ && asread(c.Data) == c.Data
//@   && asread(c.precision) == c.precision && asread(c.level) == c.level && asread(c.dataLength) == c.dataLength

// everything a read needs to succeed (for plain headers and declared lengths within bounds)
//@ pure readable(S) = plain(S, 0) && hdr_ok(S, 0) && fields_ok(text(S, 0), hdr(S, 0)) && dims_ok(text(S, 0), hdr(S, 0)[0:2]) && level_ok(text(S, 0))
//@   && small(num(text(S, 0), "BY")) && data_ok(S, sfind(S, 0, 3) + 1, text(S, 0), hdr(S, 0)) && unit_of(hdr(S, 0)[0:2]) != Unit_unknown

//@ pure entry_of(c) = tar_index(srcver(c))

//@ func radolan.NewComposites(rd io.Reader) (cs []*radolan.Composite, err error)
//@ public
//@ requires rd != nil
//@ modifies ver(rd)
//@ let T = bunzip2(old(content(rd)))
//@ focus use
//@ invariant with (a *archive/tar.Reader) taridx(a) == $n
//@ decreases with (a *archive/tar.Reader) tar_n(T) - taridx(a)
//@ invariant with (l []*radolan.Composite) forall k :: 0 <= k && k < $n ==> l[k] != nil && entry_of(l[k]) == k && src(l[k]) == tar_entry(T, k)
//@ invariant with (l []*radolan.Composite) forall k :: 0 <= k && k < $n ==> unchanged(l[k])
//@ ensures [C15] err != nil ==> cs == nil
//@ ensures [C15] err == nil ==> tar_ok(T) && len(cs) == tar_n(T)
//@ ensures [C15] err == nil ==> forall i :: 0 <= i && i < len(cs) ==> cs[i] != nil && 0 <= entry_of(cs[i]) && entry_of(cs[i]) < tar_n(T)
//@   && src(cs[i]) == tar_entry(T, entry_of(cs[i]))
//@ ensures [C15] err == nil ==> forall i, j :: 0 <= i && i < j && j < len(cs) ==> entry_of(cs[i]) != entry_of(cs[j])
//@ ensures [C15] err == nil ==> forall i :: 0 <= i && i < len(cs) ==> unchanged(cs[i])
//@ ensures [C15] err == nil ==> forall i, j :: 0 <= i && i < j && j < len(cs) ==> inst(cs[i].ForecastTime) <= inst(cs[j].ForecastTime)
//@ ensures [C15] tar_ok(T) && (forall k :: 0 <= k && k < tar_n(T) ==> readable(tar_entry(T, k))) ==> err == nil
