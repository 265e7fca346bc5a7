package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"

	"gitlab.cs.fau.de/since/radolan"
)

// slow hands out a stream in small pieces
type slow struct {
	b []byte
	r *rand.Rand
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(700)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

type result struct {
	c     *radolan.Composite
	err   error
	panik interface{}
}

func read(c *ctx, what string, s []byte) result {
	c.begin(what, s)
	var res result
	var rd io.Reader = bytes.NewReader(s)
	if c.r.Intn(4) == 0 {
		rd = &slow{s, c.r}
	}
	res.panik = guard(func() { res.c, res.err = radolan.NewComposite(rd) })
	return res
}

func (r result) succeeded() bool {
	return r.panik == nil && (r.err == nil || r.err == radolan.ErrUnknownUnit)
}

func (r result) outcome() string {
	if r.panik != nil {
		return fmt.Sprint(r.panik)
	}
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	return "success"
}

// compare reads s and checks the outcome, then hands a successful read to the callback
func compare(c *ctx, s []byte, what string, f func(res result, w *ref)) {
	w := refRead(s)
	res := read(c, what, s)
	if res.panik != nil {
		c.fail(what+": outcome", describe(s), s, expect(w), res.outcome())
		return
	}
	if !w.plain || !w.minutesOK {
		return
	}
	if res.succeeded() != w.ok {
		c.fail(what+": outcome", describe(s), s, expect(w), res.outcome())
		return
	}
	if w.ok && (res.err == nil) != (w.unit != "unknown unit") {
		c.fail(what+": unknown unit", describe(s), s, expect(w), res.outcome())
		return
	}
	if w.ok {
		if p := guard(func() { f(res, w) }); p != nil {
			c.fail(what+": use of the result", describe(s), s, "the declared values", p)
		}
	}
}

func expect(w *ref) string {
	if !w.plain {
		return "composite or error"
	}
	if w.ok {
		if w.unit == "unknown unit" {
			return "success with ErrUnknownUnit"
		}
		return "success"
	}
	return "error: " + w.why
}

func describe(s []byte) string {
	i := bytes.IndexByte(s, 3)
	if i < 0 || i > 600 {
		i = min(len(s), 600)
	}
	return fmt.Sprintf("header %q, %d bytes in all", s[:i], len(s))
}

func cells(c *ctx, s []byte, what string, res result, w *ref) {
	co := res.c
	if len(co.PlainData) != w.py {
		c.fail(what+": plain rows", describe(s), s, w.py, len(co.PlainData))
		return
	}
	for y := range w.rows {
		if len(co.PlainData[y]) != w.px {
			c.fail(what+": plain columns", describe(s), s, w.px, len(co.PlainData[y]))
			return
		}
		for x := range w.rows[y] {
			if !same32(co.PlainData[y][x], w.rows[y][x]) {
				c.fail(what+": plain pixel", fmt.Sprintf("row %d column %d (%s, %s, precision %d), %s", y, x, w.encoding, w.unit, w.precision, describe(s)), s, w.rows[y][x], co.PlainData[y][x])
				return
			}
		}
	}
}

func meta(c *ctx, s []byte, what string, res result, w *ref) {
	co := res.c
	if co.Product != w.product {
		c.fail(what+": product", describe(s), s, w.product, co.Product)
	}
	if got := fmt.Sprint(co.DataUnit); got != w.unit {
		c.fail(what+": unit", describe(s), s, w.unit, got)
	}
	if !co.CaptureTime.Equal(w.capture) {
		c.fail(what+": capture time", describe(s), s, w.capture, co.CaptureTime)
	}
	if !co.ForecastTime.Equal(w.forecast) {
		c.fail(what+": forecast time", describe(s), s, w.forecast, co.ForecastTime)
	}
	if co.Interval != w.interval {
		c.fail(what+": interval", describe(s), s, w.interval, co.Interval)
	}
	if co.Format != w.format {
		c.fail(what+": format", describe(s), s, w.format, co.Format)
	}
}

func dims(c *ctx, s []byte, what string, res result, w *ref) {
	co := res.c
	if co.Dx != w.dx || co.Dy != w.dy || co.Px != w.px || co.Py != w.py {
		c.fail(what+": dimensions", describe(s), s, fmt.Sprint("Dx Dy Px Py ", w.dx, w.dy, w.px, w.py), fmt.Sprint(co.Dx, co.Dy, co.Px, co.Py))
	}
	if w.res != 0 && (co.Rx != w.res || co.Ry != w.res) {
		c.fail(what+": catalogued resolution", describe(s), s, w.res, fmt.Sprint(co.Rx, co.Ry))
	}
}

func all(c *ctx, s []byte, what string) {
	compare(c, s, what, func(res result, w *ref) {
		meta(c, s, what, res, w)
		dims(c, s, what, res, w)
		cells(c, s, what, res, w)
	})
}

// hooks: unexported functions, when the tree still has them with the known signature
func hook(name string) interface{} { return radolan.VerifHooks[name] }

func init() {
	checks["C02"] = func(c *ctx) {
		// every catalogued label, and some others, with each field present and absent
		ls := append(append([]string{}, labels...), "ZZ", "W5", "W0", "Wx", "QQ", "AA", "RV", "XW", "w1")
		for _, p := range ls {
			for _, extra := range []string{"", "INT   5", "INT  10VV 030", "VV 60", "VV000INT1440VS 3", "VS 5INT 60", "E-01VV  5", "INT   0", "VV-10INT-15", "INT 1000000VV 9999999"} {
				h := p + "080830100000615"
				if len(p) == 2 {
					h = p + "080830" + "10000" + "0615"
				}
				s := withData(h, extra+"GP 2x 3", 6)
				compare(c, s, "metadata", func(res result, w *ref) { meta(c, s, "metadata", res, w) })
				if c.over() {
					return
				}
			}
		}
		// all days, months, years, some times
		for y := 0; y < 100; y++ {
			for m := 1; m <= 12; m++ {
				for _, d := range []int{1, 9, 12, 28, 29, 30, 31, 10 + (y+m)%20} {
					h := fmt.Sprintf("RX%02d%02d%02d%05d%02d%02d", d, (y+m)%24, (7*y+m)%60, y*m, m, y)
					s := withData(h, "GP1x1INT 5VV 5", 2)
					compare(c, s, "date", func(res result, w *ref) { meta(c, s, "date", res, w) })
				}
			}
			if c.over() {
				return
			}
		}
		for _, f := range []string{"INT", "VV", "VS", "E", "BY", "LV", "GP", "BG"} {
			for _, j := range junk {
				s := withData("RW080830100000615", f+j+"GP1x2", 2)
				all(c, s, "unusual field content")
				s = withData("RW080830100000615", "GP1x2"+f+j, 2)
				all(c, s, "unusual field content")
			}
		}
		for !c.over() {
			o := opt{maxdim: 5, valid: 1, shuffle: c.r.Intn(2) == 0}
			if c.r.Intn(2) == 0 {
				o.valid = 0.93
			}
			s := stream(c.r, o)
			compare(c, s, "metadata", func(res result, w *ref) { meta(c, s, "metadata", res, w) })
		}
	}
	checks["C03"] = func(c *ctx) {
		if f, ok := hook("splitHeader").(func(string) map[string]string); ok {
			for i := 0; i < 60000 && !c.over(); i++ {
				n := c.r.Intn(30)
				b := make([]byte, n)
				al := "ABEGILNPSTVXYZ0123456789 -+<>,.xabz@[\n\x00\x7f"
				if i%3 == 0 {
					al = "ABab1 "
				}
				for k := range b {
					b[k] = al[c.r.Intn(len(al))]
				}
				if n == 0 || b[0] < 'A' || b[0] > 'Z' {
					continue
				}
				want := map[string]string{}
				for _, m := range fieldRE.FindAllStringSubmatch(string(b), -1) {
					want[m[1]] = m[2]
				}
				c.begin("splitHeader", b)
				var got map[string]string
				if p := guard(func() { got = f(string(b)) }); p != nil || fmt.Sprint(got) != fmt.Sprint(want) {
					c.fail("splitHeader", fmt.Sprintf("%q", b), b, fmt.Sprintf("%q", want), fmt.Sprintf("%q %v", got, p))
				}
			}
		}
		for _, tail := range []string{"E", "INT", "VV", "VS", "LV", "GP", "BG", "Q", "QQQ", "BY", "MS", "INTX"} {
			for _, mid := range []string{"GP2x3", "GP2x3INT 5", "GP2x3VV 10", "GP2x3VS 4E-01", "BG003002MS<a,b>"} {
				s := withData("FX080830100000615", mid+tail, 12)
				all(c, s, "fields")
				s = withData("FX080830100000615", tail+mid, 12)
				all(c, s, "fields")
			}
		}
		for !c.over() {
			o := opt{maxdim: 6, valid: 1, shuffle: true}
			if c.r.Intn(3) == 0 {
				o.valid = 0.95
			}
			s := stream(c.r, o)
			if c.r.Intn(3) == 0 { // insert unknown fields anywhere between fields
				s = mutateHeader(c.r, s)
			}
			all(c, s, "fields")
		}
	}
	checks["C04"] = func(c *ctx) {
		for _, p := range labels {
			for _, extra := range []string{"", "E-01"} {
				for _, n := range []int{200 * 224, 200 * 2400, 400 * 224, 400 * 2400} {
					if n > 100000 && catalogPy[p] != 2400 {
						continue
					}
					s := withData(p+"080830100000615", extra, n)
					compare(c, s, "catalogued dimensions", func(res result, w *ref) { dims(c, s, "catalogued dimensions", res, w) })
				}
			}
			if c.over() {
				return
			}
		}
		gps := []string{"0x5", "5x0", "-3x4", "4x-3", "99999x1", "1x99999", "16385x1", "1x16385", "99999x99999", "16384x1", "1x16384", "16384x2", "2x3", "3x2", " 7x 2", "900x900", "1x1", "-1x-1", "-4x-4",
			"20000x20000", "0x0", "12000x1", "1x12000", "8000x1", "1x8000", "999x1", "1x1000"}
		for _, g := range gps {
			var a, b int
			fmt.Sscanf(g, "%dx%d", &a, &b)
			n := a * b
			if n < 0 || n > 3000000 {
				n = 64
			}
			for _, k := range []int{1, 2} {
				s := withData("RX080830100000615", "GP"+g, k*n)
				compare(c, s, "grid field", func(res result, w *ref) { dims(c, s, "grid field", res, w) })
			}
			s := withData("RX080830100000615", "GP"+g+"LV 1  1.0", 7)
			compare(c, s, "grid field", func(res result, w *ref) { dims(c, s, "grid field", res, w) })
		}
		for _, g := range []string{"000005", "005000", "002003", "003002", "460460", "-12-34", " 12 34", "99999", "005", "1 2", "001999", "999001", "0050021", "0020031", "-04-04", "-4-4", "00 4 4"} {
			var a, b int
			fmt.Sscanf(g, "%3d%3d", &a, &b)
			for _, k := range []int{1, 2} {
				s := withData("PG080830100000615", "BG"+g, k*a*b)
				compare(c, s, "picture field", func(res result, w *ref) { dims(c, s, "picture field", res, w) })
			}
		}
		for !c.over() {
			o := opt{maxdim: 30, valid: 0.97, dims: pick(c.r, "GP", "BG", "both", "GP", "")}
			if c.r.Intn(8) == 0 {
				o.dims = "cat"
			}
			s := stream(c.r, o)
			compare(c, s, "dimensions", func(res result, w *ref) { dims(c, s, "dimensions", res, w) })
		}
	}
	checks["C05"] = func(c *ctx) { samples(c, "two-byte", 256) }
	checks["C06"] = func(c *ctx) { samples(c, "one-byte", 16) }
	checks["C07"] = func(c *ctx) {
		// every pair of bytes in a short line, several widths
		for px := 1; px <= 18; px += 4 {
			for b1 := 0; b1 < 256 && !c.over(); b1++ {
				for b2 := 0; b2 < 256; b2 += 1 + px/5 {
					if b1 == 10 || b2 == 10 {
						continue
					}
					s := rl([]byte{1, byte(b1), byte(b2)}, px, 6)
					compare(c, s, "run-length line", func(res result, w *ref) { cells(c, s, "run-length line", res, w) })
				}
			}
		}
		for _, px := range []int{239, 240, 460, 478, 479, 500, 717, 720, 900, 1200} {
			for _, l := range [][]byte{{1, 255, 16, 0x11}, {1, 255, 255, 16, 0xF2}, {1, 255, 255, 17, 0xF2, 0x03}, {1, 255, 20, 0x15}, {1, 255}, {1, 255, 255}, {1, 255, 255, 255, 100}, {1, 254, 0xFF}, {1, 16, 0xFF, 0xFF, 0x1F},
				{1, 255, 15}, {1, 255, 5, 0x11}, {1, 255, 255, 15}, {1}, {}, {255}, {255, 16}, {1, 16}, {1, 16, 0x05}, {1, 200}} {
				s := rl(l, px, 5)
				compare(c, s, "run-length line", func(res result, w *ref) { cells(c, s, "run-length line", res, w) })
			}
		}
		for !c.over() {
			o := opt{maxdim: 40, valid: 1, encoding: "runlength", dims: pick(c.r, "GP", "BG")}
			if c.r.Intn(3) == 0 {
				o.valid = 0.9
			}
			if c.r.Intn(10) == 0 {
				o.maxdim = 900
			}
			s := stream(c.r, o)
			compare(c, s, "run-length", func(res result, w *ref) { cells(c, s, "run-length", res, w) })
		}
	}
	checks["C08"] = func(c *ctx) {
		// every truncation of small files, all encodings
		for _, enc := range []string{"two-byte", "one-byte", "runlength"} {
			for i := 0; i < 12; i++ {
				s := stream(c.r, opt{maxdim: 6, valid: 1, encoding: enc, dims: pick(c.r, "GP", "BG")})
				for n := bytes.IndexByte(s, 3); n >= 0 && n <= len(s) && !c.over(); n++ {
					t := s[:n]
					compare(c, t, "truncated file", func(res result, w *ref) { cells(c, t, "truncated file", res, w) })
				}
			}
		}
		for !c.over() {
			o := opt{maxdim: 60, valid: 1}
			if c.r.Intn(3) == 0 {
				o.valid = 0.97
			}
			switch c.r.Intn(40) {
			case 0:
				o.dims = "cat"
			case 1:
				o.maxdim = 999
			}
			s := stream(c.r, o)
			compare(c, s, "placement", func(res result, w *ref) { cells(c, s, "placement", res, w) })
		}
	}
	checks["C09"] = func(c *ctx) {
		for _, g := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 4}, {1, 7}, {5, 5}, {4, 8}} {
			n := g[0] * g[1]
			for _, lv := range []string{"", "LV 0", "LV 1  1.5", "LV 2  1.0 -2.5"} {
				for size := -5; size <= 4*n+4 && !c.over(); size++ {
					for have := 0; have < 3; have++ {
						s := sized("RW080830100000615", fmt.Sprintf("GP%dx%d%s", g[0], g[1], lv), size)
						d := make([]byte, []int{n, 2 * n, 4*n + 8}[have])
						c.r.Read(d)
						if lv != "" {
							d = bytes.Repeat([]byte("\x01\x10\n"), g[0])
						}
						s = append(s, d...)
						compare(c, s, "encoding choice", func(res result, w *ref) { cells(c, s, "encoding choice", res, w) })
					}
				}
			}
		}
		for !c.over() {
			o := opt{maxdim: 30, valid: 0.96}
			s := stream(c.r, o)
			compare(c, s, "encoding", func(res result, w *ref) { cells(c, s, "encoding", res, w) })
		}
	}
	checks["C10"] = func(c *ctx) {
		for i := 0; !c.over(); i++ {
			o := opt{maxdim: 20, valid: 1}
			if i < 60 {
				o.dims = "cat"
			}
			s := stream(c.r, o)
			compare(c, s, "layers", func(res result, w *ref) { layers(c, s, res, w) })
		}
	}
	checks["C11"] = func(c *ctx) {
		ext := []int{-1, 0, 1, 2, -2, math.MaxInt64, math.MinInt64, 1 << 32, -1 << 32, 200, 199, 224, 223, 12, 11}
		for i := 0; !c.over(); i++ {
			var co *radolan.Composite
			in := ""
			var s []byte
			switch i % 5 {
			case 0, 1:
				o := opt{maxdim: 9, valid: 1}
				if i%50 == 0 {
					o.dims = "cat"
				}
				s = stream(c.r, o)
				res := read(c, "accessors", s)
				if !res.succeeded() {
					continue
				}
				co, in = res.c, describe(s)
			case 2:
				s = mutate(c.r, stream(c.r, opt{maxdim: 9, valid: 0.8}))
				res := read(c, "accessors", s)
				if res.panik != nil {
					continue
				}
				co, in = res.c, describe(s)
			case 3:
				dx, dy := c.r.Intn(1200)-100, c.r.Intn(1200)-100
				co = radolan.NewDummy("RX", c.r.Intn(8), dx, dy)
				in = fmt.Sprintf("NewDummy %dx%d", dx, dy)
			case 4: // any well-formed composite
				co = &radolan.Composite{Dx: c.r.Intn(6), Dy: c.r.Intn(6), Dz: c.r.Intn(5)}
				co.DataZ = make([][][]float32, co.Dz)
				for z := range co.DataZ {
					co.DataZ[z] = make([][]float32, co.Dy)
					for y := range co.DataZ[z] {
						co.DataZ[z][y] = make([]float32, co.Dx)
						for x := range co.DataZ[z][y] {
							co.DataZ[z][y][x] = float32(100*z + 10*y + x + 1)
						}
					}
				}
				if co.Dz > 0 {
					co.Data = co.DataZ[0]
				}
				in = fmt.Sprintf("composite %dx%dx%d", co.Dx, co.Dy, co.Dz)
			}
			if co == nil {
				continue
			}
			pt := func(n int) int {
				switch c.r.Intn(3) {
				case 0:
					return pickInt(c.r, -1, n, n-1, 0, n+1, 2*n, -n)
				case 1:
					return ext[c.r.Intn(len(ext))]
				}
				return c.r.Intn(max(n, 1))
			}
			for k := 0; k < 120; k++ {
				x, y, z := pt(co.Dx), pt(co.Dy), pt(co.Dz)
				if k >= 40 && k%2 == 0 {
					x, y, z = c.r.Intn(max(co.Dx, 1)), c.r.Intn(max(co.Dy, 1)), c.r.Intn(max(co.Dz, 1))
				}
				want := nan32
				if x >= 0 && y >= 0 && z >= 0 && x < co.Dx && y < co.Dy && z < co.Dz {
					want = co.DataZ[z][y][x]
				}
				var got, got0 float32
				if p := guard(func() { got = co.AtZ(x, y, z) }); p != nil || !same32(got, want) {
					c.fail("AtZ", fmt.Sprintf("AtZ(%d, %d, %d) of %s (Dx %d Dy %d Dz %d)", x, y, z, in, co.Dx, co.Dy, co.Dz), s, want, fmt.Sprint(got, " ", p))
					break
				}
				want0 := nan32
				if x >= 0 && y >= 0 && 0 < co.Dz && x < co.Dx && y < co.Dy {
					want0 = co.DataZ[0][y][x]
				}
				if p := guard(func() { got0 = co.At(x, y) }); p != nil || !same32(got0, want0) {
					c.fail("At", fmt.Sprintf("At(%d, %d) of %s (Dx %d Dy %d Dz %d)", x, y, in, co.Dx, co.Dy, co.Dz), s, want0, fmt.Sprint(got0, " ", p))
					break
				}
			}
		}
	}
}

// layers: what arrangeData promises
func layers(c *ctx, s []byte, res result, w *ref) {
	co := res.c
	n, first := 1, w.py-w.dy
	if w.py%w.dy == 0 {
		n, first = w.py/w.dy, 0
	}
	bad := func(what string, want, got interface{}) {
		c.fail("layers: "+what, fmt.Sprintf("plain height %d, layer height %d, %s", w.py, w.dy, describe(s)), s, want, got)
	}
	if co.Dz != n || len(co.DataZ) != n {
		bad("count", n, fmt.Sprint("Dz ", co.Dz, " layers ", len(co.DataZ)))
		return
	}
	for z := range co.DataZ {
		if len(co.DataZ[z]) != w.dy {
			bad("rows", w.dy, len(co.DataZ[z]))
			return
		}
		for y := range co.DataZ[z] {
			p := first + z*w.dy + y
			if len(co.DataZ[z][y]) != w.px || &co.DataZ[z][y][0] != &co.PlainData[p][0] {
				bad("storage", fmt.Sprintf("layer %d row %d is plain row %d", z, y, p), "other storage")
				return
			}
		}
	}
	if len(co.Data) != w.dy || &co.Data[0][0] != &co.DataZ[0][0][0] || &co.Data[0] != &co.DataZ[0][0] {
		bad("alias", "Data is layer 0", "it is not")
	}
}

// samples: all sample values at all precisions and in all units
func samples(c *ctx, enc string, rows int) {
	for _, p := range []string{"RX", "RW", "PE", "PR", "ZZ", "WN", "SF", "EX"} {
		for _, e := range []string{"", "E-01", "E-02", "E 00", "E 1", "E-03", "E+02", "E 45", "E-60", "E-46", "E 38", "E-350", "E 400"} {
			if c.over() {
				return
			}
			n := 256 * rows
			mk := func(off int) []byte {
				var d []byte
				for i := 0; i < n; i++ {
					v := i + off
					if enc == "two-byte" {
						d = append(d, byte(v), byte(v>>8))
					} else {
						d = append(d, byte(v))
					}
				}
				return d
			}
			for _, off := range []int{0, 1, 257} {
				d := mk(off)
				s := append(sized(p+"080830100000615", fmt.Sprintf("GP%dx256%s", rows, e), len(d)), d...)
				compare(c, s, enc+" samples", func(res result, w *ref) { cells(c, s, enc+" samples", res, w) })
			}
		}
	}
	for !c.over() {
		s := stream(c.r, opt{maxdim: 40, valid: 1, encoding: enc})
		compare(c, s, enc+" samples", func(res result, w *ref) { cells(c, s, enc+" samples", res, w) })
	}
}

// sized builds a header with a BY field that declares size data bytes
func sized(head, rest string, size int) []byte {
	h := ""
	for i, by := 0, 0; i < 6; i++ {
		h = fmt.Sprintf("%sBY%7d%s\x03", head, by, rest)
		by = size + len(h)
	}
	return []byte(h)
}

// withData builds a file of the header and n data bytes
func withData(head, rest string, n int) []byte {
	s := sized(head, rest, n)
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(7*i + i/251)
		if d[i] == 10 {
			d[i] = 12
		}
	}
	return append(s, d...)
}

// rl builds a one-row run-length file
func rl(line []byte, px, nl int) []byte {
	lv := fmt.Sprintf("LV%2d", nl)
	for i := 0; i < nl; i++ {
		lv += fmt.Sprintf("%5.1f", float64(i)*3.5-1)
	}
	s := sized("PG080830100000615", fmt.Sprintf("GP1x%d%s", px, lv), 20)
	return append(append(s, line...), '\n')
}

func mutateHeader(r *rand.Rand, s []byte) []byte {
	i := bytes.IndexByte(s, 3)
	if i < 20 {
		return s
	}
	// between fields: before an upper-case letter that follows another character
	var at []int
	for k := 18; k < i; k++ {
		if s[k] >= 'A' && s[k] <= 'Z' && !(s[k-1] >= 'A' && s[k-1] <= 'Z') {
			at = append(at, k)
		}
	}
	if len(at) == 0 {
		return s
	}
	k := at[r.Intn(len(at))]
	ins := pick(r, "QQ1 ", "MS<a,b>", "U 5 ", "GPX3x3 ", "XE-01 ", "EE 1 ", "VVV 5 ", "S ", "LVL 1  1.0 ", "Q-", "INTER 5 ", "BYE 3 ")
	return append(s[:k], append([]byte(ins), s[k:]...)...)
}
