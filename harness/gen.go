package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

type opt struct {
	maxdim   int
	valid    float64 // probability that each choice is a sensible one
	encoding string  // wanted encoding, "" any
	unit     string
	dims     string // GP, BG, cat or ""
	shuffle  bool
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var junk = []string{"", " ", "  ", "-", "+", "x", "1x", "x1", "0", "-1", "007", "99999", "9999999999999999999999", "1.5", "a", "00", " 5", "5 ", "\n", "\x00", "1_0", "0x10", "1e3", "~", "12abc", "<", "[", "z"}

// prod gives a product label
func prod(r *rand.Rand, o opt) string {
	for i := 0; i < 200; i++ {
		p := labels[r.Intn(len(labels))]
		if o.dims == "cat" {
			p = catalogLabels[r.Intn(len(catalogLabels))]
		}
		if o.unit != "" && unitOf[p] != o.unit {
			continue
		}
		if r.Float64() > o.valid {
			p = pick(r, "ZZ", "QX", "A1", "W5", "W0", "Rx", "R ", "W9", "RX", "W1", "W2", "W3", "W4", "PZ", "PU", "XX", "B2", "OO", "GP", "BY")
		}
		return p
	}
	return "RX"
}

func date(r *rand.Rand, o opt) (string, string) {
	if r.Float64() > o.valid {
		return pick(r, "311200", "002400", "012400", "010060", "aa0000", "000000", "320000", "290000", " 10000", "290000"), pick(r, "0221", "0015", "1315", "0215", "0220", "xx15", "01 5", "0200")
	}
	d := 1 + r.Intn(28)
	if r.Intn(4) == 0 {
		d = 1 + r.Intn(31)
	}
	return fmt.Sprintf("%02d%02d%02d", d, r.Intn(24), r.Intn(60)), fmt.Sprintf("%02d%02d", 1+r.Intn(12), r.Intn(100))
}

func dim(r *rand.Rand, o opt) int {
	if o.maxdim > 40 && r.Intn(10) == 0 {
		return 1 + r.Intn(o.maxdim)
	}
	if o.maxdim > 12 && r.Intn(3) == 0 {
		return 1 + r.Intn(12)
	}
	return 1 + r.Intn(6)
}

func num(r *rand.Rand, o opt, good func() string) string {
	if r.Float64() > o.valid {
		return junk[r.Intn(len(junk))]
	}
	return good()
}

// field renderings of an integer
func intText(r *rand.Rand, v int) string {
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf(" %d", v)
	case 1:
		return fmt.Sprintf("%4d", v)
	case 2:
		return fmt.Sprintf("%03d", v)
	case 3:
		return fmt.Sprintf("%+d", v)
	case 4:
		return fmt.Sprintf("%d ", v)
	}
	return strconv.Itoa(v)
}

// stream makes a file: header, end of header, data. The data fits the header unless validity is low.
func stream(r *rand.Rand, o opt) []byte {
	p := prod(r, o)
	d1, d2 := date(r, o)
	type fld struct{ k, v string }
	var fs []fld
	add := func(k, v string) { fs = append(fs, fld{k, v}) }

	px, py := dim(r, o), dim(r, o)
	mode := o.dims
	if mode == "" {
		mode = pick(r, "GP", "GP", "GP", "BG", "BG", "both")
		if catalogPy[p] > 0 && r.Intn(3) == 0 {
			mode = "cat"
		}
	}
	switch mode {
	case "GP", "both":
		s := pick(r, "%dx%d", "%4dx%4d", " %dx%d", "%3dx %3d", "%04dx%04d")
		add("GP", num(r, o, func() string { return fmt.Sprintf(s, py, px) }))
		if r.Float64() > o.valid {
			fs[len(fs)-1].v = pick(r, "0x5", "5x0", "-3x4", "4x-3", "99999x1", "1x99999", "16385x1", "1x16385", "99999x99999", "1X1", "5 x5", "5*5", "16384x1", "1x16384", "2x3x4", "3")
		}
		if mode == "both" {
			add("BG", fmt.Sprintf("%03d%03d", 1+r.Intn(9), 1+r.Intn(9)))
		}
	case "BG":
		add("BG", num(r, o, func() string { return fmt.Sprintf("%03d%03d", py, px) }))
		if r.Float64() > o.valid {
			fs[len(fs)-1].v = pick(r, "000005", "005000", "5005", "-12 34", "0050050", "00a005", "12 34", "  5  4", "999", "1 2", "-01005", "005-01")
		}
	case "cat":
		px, py = 200, catalogPy[p]
		if py == 0 {
			py = 224
		}
	}
	enc := o.encoding
	if enc == "" {
		enc = pick(r, "two-byte", "one-byte", "runlength")
	}
	if r.Intn(2) == 0 || p[0] == 'W' {
		add("INT", num(r, o, func() string {
			return intText(r, []int{0, 1, 5, 10, 60, 144, 1440, 2880, 60 * r.Intn(100), r.Intn(9999), -5, 14999999}[r.Intn(12)])
		}))
	}
	if r.Intn(2) == 0 {
		add("VV", num(r, o, func() string {
			return intText(r, []int{0, 5, 10, 15, 30, 60, 90, 120, 5 * r.Intn(60), r.Intn(99999), -30, 1440}[r.Intn(12)])
		}))
	}
	if r.Intn(2) == 0 {
		add("VS", num(r, o, func() string { return intText(r, r.Intn(8)) }))
	}
	if r.Intn(4) > 0 {
		add("E", num(r, o, func() string {
			return pick(r, "-02", "-01", "00", "-00", "+01", "-2", "1", "3", "-05", "-1", "2", "-10", "45", "-60", "+02", "10")
		}))
	}
	nl := 0
	if enc == "runlength" {
		nl = r.Intn(8)
		if r.Intn(4) == 0 {
			nl = r.Intn(17)
		}
		if r.Float64() > o.valid {
			nl = pickInt(r, 0, 15, 16, 20, 99)
		}
		s := fmt.Sprintf("%2d", nl)
		if r.Intn(3) == 0 {
			s = fmt.Sprintf("%02d", nl)
		}
		if nl < 10 && r.Intn(8) == 0 {
			s = fmt.Sprintf("%-2d", nl)
		}
		for i := 0; i < nl; i++ {
			s += fmt.Sprintf("%5.1f", float64(r.Intn(1200)-200)/10)
		}
		if r.Float64() > o.valid {
			s = pick(r, "", " ", "1", " 1", "-1", "99", " 1  1.", " 0 ", s+" ", s+"0", "ab", " 1abcde", " 1  nan", " 1 +Inf", " 1-1.0 ", "  1  1.0", " 2  1.0", " 1 1e30", " 11e300")
		}
		add("LV", s)
	}
	if r.Intn(3) == 0 {
		add("SW", pick(r, "   2.18.3", "1.2", ""))
	}
	if r.Intn(3) == 0 {
		add("PR", pick(r, " E-01", "", "x"))
	}
	if r.Intn(3) == 0 {
		add("MS", pick(r, " 72<boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem>", "<>", "0"))
	}
	if len(fs) > 0 && r.Intn(12) == 0 { // a repeated field
		add(fs[r.Intn(len(fs))].k, fs[r.Intn(len(fs))].v)
	}
	if r.Intn(12) == 0 { // names that extend known ones
		add(pick(r, "GPX", "XGP", "BYY", "EE", "VVV", "LVX", "INTX", "XINT", "BGG", "VSS"), pick(r, "1", "5x5", "", "002002"))
	}
	if o.shuffle || r.Intn(3) == 0 {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	by := fld{"BY", ""}
	at := r.Intn(len(fs) + 1)
	if r.Intn(3) > 0 {
		at = 0
	}
	fs = append(fs[:at], append([]fld{by}, fs[at:]...)...)

	wmo := fmt.Sprintf("%05d", r.Intn(100000))
	if r.Intn(3) == 0 {
		wmo = "10000"
	}
	size := 0
	switch enc {
	case "two-byte":
		size = 2 * px * py
	case "one-byte":
		size = px * py
	default:
		size = r.Intn(5000)
		if r.Intn(3) == 0 {
			size = px * py * (1 + r.Intn(2))
		}
	}
	if r.Float64() > o.valid {
		size = pickInt(r, 0, -5, size+1, size-1, size*2, size/2, 1<<30, r.Intn(100), 3*px*py)
	}
	render := func(total int) string {
		var b strings.Builder
		b.WriteString(p + d1 + wmo + d2)
		for _, f := range fs {
			v := f.v
			if f.k == "BY" {
				v = fmt.Sprintf("%7d", total)
				if at%2 == 1 {
					v = fmt.Sprint(total)
				}
			}
			b.WriteString(f.k + v)
		}
		return b.String()
	}
	total := 0
	for i := 0; i < 6; i++ {
		total = size + len(render(total)) + 1
	}
	for i := range fs {
		if fs[i].k == "BY" && r.Float64() > o.valid && r.Intn(3) == 0 {
			h := render(total)
			j := strings.Index(h, "BY")
			return append([]byte(h[:j+2]+junk[r.Intn(len(junk))]+h[j+2:]+"\x03"), body(r, o, enc, px, py, nl)...)
		}
	}
	return append([]byte(render(total)+"\x03"), body(r, o, enc, px, py, nl)...)
}

func pickInt(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

func body(r *rand.Rand, o opt, enc string, px, py, nl int) []byte {
	if px < 1 || py < 1 || px > 3000 || py > 3000 {
		return []byte("xx\nyy\n")
	}
	var out []byte
	switch enc {
	case "two-byte":
		out = make([]byte, 2*px*py)
		r.Read(out)
		if r.Intn(2) == 0 { // mostly without no-data
			for i := 1; i < len(out); i += 2 {
				if r.Intn(4) > 0 {
					out[i] &^= 0x20
				}
			}
		}
	case "one-byte":
		out = make([]byte, px*py)
		r.Read(out)
		for i := range out {
			if r.Intn(12) == 0 {
				out[i] = byte(pickInt(r, 249, 250, 251, 255, 0))
			}
		}
	default:
		for y := 0; y < py; y++ {
			out = append(out, line(r, o, px, nl)...)
			out = append(out, '\n')
		}
	}
	if r.Intn(4) == 0 {
		out = append(out, make([]byte, r.Intn(5))...)
	}
	if r.Float64() > o.valid && len(out) > 0 {
		out = out[:len(out)-1-r.Intn(min(len(out), 1+2*px))]
	}
	return out
}

// line makes a run-length line for px pixels, without the newline
func line(r *rand.Rand, o opt, px, nl int) []byte {
	nr := byte(r.Intn(256))
	if nr == 10 {
		nr = 11
	}
	out := []byte{nr}
	if r.Intn(12) == 0 {
		if r.Intn(2) == 0 {
			return nil
		}
		return out
	}
	pos := 0
	off := r.Intn(px + 1)
	if r.Intn(4) == 0 {
		off = 0
	}
	for off >= 239 {
		out = append(out, 255)
		off -= 239
		pos += 239
	}
	out = append(out, byte(16+off))
	pos += off
	for pos < px && r.Intn(20) > 0 {
		n := 1 + r.Intn(15)
		if r.Intn(10) == 0 {
			n = 0
		}
		if n > px-pos {
			n = px - pos
		}
		lv := r.Intn(nl + 2)
		if r.Intn(6) == 0 {
			lv = r.Intn(16)
		}
		lv &= 15
		b := byte(n<<4 | lv)
		if b == 10 {
			b = 11
		}
		out = append(out, b)
		pos += n
	}
	if r.Float64() > o.valid {
		switch r.Intn(4) {
		case 0:
			out[1] = byte(r.Intn(16))
			if out[1] == 10 {
				out[1] = 9
			}
		case 1:
			out = append(out, 0xF1)
		case 2:
			if i := r.Intn(len(out)); true {
				out[i] = byte(11 + r.Intn(245))
			}
		case 3:
			out = append(out[:1], 255, 255, 255, 17, 0x11)
		}
	}
	return out
}

// mutate damages a stream
func mutate(r *rand.Rand, s []byte) []byte {
	s = append([]byte(nil), s...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(s) == 0 {
			return []byte{3}
		}
		i := r.Intn(len(s))
		if r.Intn(2) == 0 && len(s) > 100 {
			i = r.Intn(100)
		}
		switch r.Intn(7) {
		case 0:
			s[i] = byte(r.Intn(256))
		case 1:
			s = append(s[:i], s[i+1:]...)
		case 2:
			s = append(s[:i], append([]byte{byte(r.Intn(128))}, s[i:]...)...)
		case 3:
			s = s[:i]
		case 4:
			s[i] = "0123456789 -+x.ABEGILNPSTVXY\x03\n"[r.Intn(30)]
		case 5:
			j := r.Intn(len(s))
			s[i], s[j] = s[j], s[i]
		case 6:
			j := i + r.Intn(len(s)-i)
			s = append(s[:i], append(append([]byte(nil), s[i:j]...), s[i:]...)...)
			if len(s) > 200000 {
				s = s[:200000]
			}
		}
	}
	return s
}
