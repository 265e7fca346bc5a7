package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

// ---------------------------------------------------------------- projection

type gridRef struct {
	w, h                   int
	top, left, bottom, rgt float64
}

var grids = []gridRef{
	{900, 900, 54.5877, 2.0715, 47.0705, 14.6209},
	{920, 920, 54.66218275, 1.900684377, 46.98044293, 14.73300934},
	{900, 1100, 55.5482, 3.0889, 46.1827, 15.4801},
	{1100, 1200, 55.86584289, 1.435612143, 45.68358331, 16.60186543},
	{1400, 1500, 56.5423, -0.8654, 43.8736, 18.2536},
}
var de1200v5 = gridRef{1100, 1200, 55.86208711, 1.463301510, 45.68460578, 16.58086935}

// scaleOf: dx = g*2^k for an integer k, both
func gridOf(dx, dy int) *gridRef {
	if dx <= 0 || dy <= 0 {
		return nil
	}
	for i := range grids {
		g := &grids[i]
		a, b := dx, dy
		w, h := g.w, g.h
		for a%2 == 0 && b%2 == 0 {
			a, b = a/2, b/2
		}
		for w%2 == 0 && h%2 == 0 {
			w, h = w/2, h/2
		}
		if a == w && b == h {
			return g
		}
	}
	return nil
}

func offered(dx, dy, format int) *gridRef {
	g := gridOf(dx, dy)
	if g == nil {
		return nil
	}
	if format >= 5 {
		if g.w == 1100 && g.h == 1200 {
			return &de1200v5
		}
		return nil
	}
	return g
}

func earth(format int, north, east float64) (x, y float64) {
	d := math.Pi / 180
	phi, lam := north*d, (east-10)*d
	var rho float64
	if format >= 5 {
		const a = 6378137.0
		const f = 1 / 298.257223563
		e := math.Sqrt(f * (2 - f))
		t := func(p float64) float64 {
			return math.Tan(math.Pi/4-p/2) / math.Pow((1-e*math.Sin(p))/(1+e*math.Sin(p)), e/2)
		}
		p60 := 60 * d
		m60 := math.Cos(p60) / math.Sqrt(1-e*e*math.Sin(p60)*math.Sin(p60))
		rho = a * m60 * t(phi) / t(p60) / 1000
	} else {
		rho = 6370.04 * (1 + math.Sin(60*d)) * math.Tan(math.Pi/4-phi/2)
	}
	return rho * math.Sin(lam), rho * math.Cos(lam)
}

func (g *gridRef) project(dx, dy, format int, north, east float64) (x, y, rx, ry float64) {
	ox, oy := earth(format, g.top, g.left)
	cx, cy := earth(format, g.bottom, g.rgt)
	rx, ry = (cx-ox)/float64(dx), (cy-oy)/float64(dy)
	px, py := earth(format, north, east)
	return (px - ox) / rx, (py - oy) / ry, rx, ry
}

func availability(c *ctx, dx, dy, format int) {
	in := fmt.Sprintf("NewDummy(format %d, %d x %d)", format, dx, dy)
	c.begin(in, nil)
	var co *radolan.Composite
	if p := guard(func() { co = radolan.NewDummy("XX", format, dx, dy) }); p != nil {
		c.fail("dummy", in, nil, "no panic", p)
		return
	}
	want := offered(dx, dy, format) != nil
	if co.HasProjection != want {
		c.fail("availability", in, nil, want, co.HasProjection)
	}
	if co.Dx != dx || co.Dy != dy || co.Format != format || co.Product != "XX" {
		c.fail("dummy fields", in, nil, "as given", fmt.Sprint(co.Dx, co.Dy, co.Format, co.Product))
	}
	if !want {
		for i := 0; i < 3; i++ {
			n, e := c.r.Float64()*200-100, c.r.Float64()*400-200
			x, y := co.Project(n, e)
			if x == x || y == y {
				c.fail("no projection", fmt.Sprint(in, ".Project(", n, ", ", e, ")"), nil, "NaN NaN", fmt.Sprint(x, y))
			}
		}
		if co.Rx == co.Rx || co.Ry == co.Ry {
			c.fail("no projection: resolution", in, nil, "NaN NaN", fmt.Sprint(co.Rx, co.Ry))
		}
	}
}

func projection(c *ctx, co *radolan.Composite, in string, dx, dy, format int) {
	g := offered(dx, dy, format)
	if g == nil {
		return
	}
	pts := [][2]float64{{g.top, g.left}, {g.bottom, g.rgt}, {51, 9}, {90, 0}, {0, 10}, {60, 10}, {-45, 190}, {52, 370}, {50, -170}, {48, 11.5}}
	for i := 0; i < 6; i++ {
		pts = append(pts, [2]float64{40 + c.r.Float64()*20, c.r.Float64()*25 - 3}, [2]float64{-89 + c.r.Float64()*179, c.r.Float64()*720 - 360})
	}
	for i, pt := range pts {
		what := fmt.Sprintf("%s.Project(%v, %v)", in, pt[0], pt[1])
		c.begin(what, nil)
		wx, wy, rx, ry := g.project(dx, dy, format, pt[0], pt[1])
		if i == 0 {
			wx, wy = 0, 0
		}
		if i == 1 {
			wx, wy = float64(dx), float64(dy)
		}
		var x, y float64
		p := guard(func() { x, y = co.Project(pt[0], pt[1]) })
		eps := 1e-7 * (1 + math.Abs(wx) + math.Abs(wy)) // rounding of the constants
		if p != nil || !(math.Abs(x-wx) <= eps && math.Abs(y-wy) <= eps) {
			c.fail("projected position", what, nil, fmt.Sprint(wx, wy), fmt.Sprint(x, y, p))
		}
		if !near(co.Rx, rx, 1e-8) || !near(co.Ry, ry, 1e-8) {
			c.fail("resolution", in, nil, fmt.Sprint(rx, ry), fmt.Sprint(co.Rx, co.Ry))
		}
	}
}

// ---------------------------------------------------------------- colours

func floor255(v float64) []uint8 {
	// values up to rounding
	var out []uint8
	for _, d := range []float64{0, -1e-9, 1e-9} {
		f := math.Floor(255*v*(1+d) + d)
		if f < 0 {
			f = 0
		}
		if f > 255 {
			f = 255
		}
		out = append(out, uint8(f))
	}
	return out
}

func oneOf(v uint8, s []uint8) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func hsl(p float64) [3]float64 {
	h := math.Mod(240-330*p+3600, 360)
	l := 0.25 + 0.5*p
	a := math.Min(l, 1-l) // saturation 1
	f := func(n float64) float64 {
		k := math.Mod(n+h/30, 12)
		return l - a*math.Max(-1, math.Min(math.Min(k-3, 9-k), 1))
	}
	return [3]float64{f(0), f(8), f(4)}
}

func gradient(c *ctx, kind string, min, max float64, logc bool, f vis.ColorFunc, name string) {
	comp := func(x float64) float64 {
		if logc {
			return math.Log(x)
		}
		return x
	}
	lo, hi := comp(min), comp(max)
	var vs []float64
	for i := -3; i <= 103; i++ {
		vs = append(vs, min+(max-min)*float64(i)/100)
		q := lo + (hi-lo)*float64(i)/100
		if logc {
			q = math.Exp(q)
		}
		vs = append(vs, q)
	}
	for i := 0; i < 60; i++ {
		vs = append(vs, min+(max-min)*(c.r.Float64()*1.4-0.2), (c.r.Float64()-0.5)*200, float64(float32(min+(max-min)*c.r.Float64())))
	}
	vs = append(vs, math.NaN(), math.Inf(1), math.Inf(-1), 0, -0.0, 1, -1, 0.5, -0.5, 1.0000001, -1.0000001, 2, -2, -1e30, 1e30, min, max, math.Nextafter(min, -1e9), math.Nextafter(min, 1e9), math.Nextafter(max, 1e9),
		math.MaxFloat64, -math.MaxFloat64, -32.5, 31.5, -31.5, 5e-324)
	for _, v := range vs {
		in := fmt.Sprintf("%s(%v)", name, v)
		c.begin(in, nil)
		var got color.RGBA
		if p := guard(func() { got = f(v) }); p != nil {
			c.fail("gradient panic", in, nil, "colour", p)
			return
		}
		var want [3][]uint8
		switch {
		case v != v, kind != "radial" && !(comp(v) >= lo):
			want = [3][]uint8{{0}, {0}, {0}}
		case kind == "radial":
			base := math.Max(math.Abs(min), math.Abs(max))
			lev := floor255(math.Min(1, comp(math.Abs(v))/comp(base)))
			non := []uint8{0}
			if math.Abs(v) <= 1 {
				lev, non = []uint8{255}, []uint8{0xCC}
			}
			if v < 0 {
				want = [3][]uint8{non, lev, lev}
			} else {
				want = [3][]uint8{lev, non, non}
			}
		default:
			p := (comp(v) - lo) / (hi - lo)
			if p > 1 {
				p = 1
			}
			if kind == "gray" {
				l := floor255(p)
				want = [3][]uint8{l, l, l}
			} else {
				a := hsl(p)
				want = [3][]uint8{floor255(a[0]), floor255(a[1]), floor255(a[2])}
			}
		}
		if got.A != 255 || !oneOf(got.R, want[0]) || !oneOf(got.G, want[1]) || !oneOf(got.B, want[2]) {
			c.fail("colour: "+kind, in, nil, fmt.Sprintf("R %v G %v B %v A 255", want[0], want[1], want[2]), got)
		}
	}
}

// ---------------------------------------------------------------- archives

type bz struct {
	in  io.WriteCloser
	out io.Reader
}

func newBz() *bz {
	cmd := exec.Command("python3", "-c", `
import sys,bz2,struct
i,o=sys.stdin.buffer,sys.stdout.buffer
while True:
    h=i.read(4)
    if len(h)<4: break
    d=bz2.compress(i.read(struct.unpack('>I',h)[0]))
    o.write(struct.pack('>I',len(d))+d); o.flush()
`)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if cmd.Start() != nil {
		return nil
	}
	return &bz{in, out}
}

func (b *bz) compress(d []byte) []byte {
	binary.Write(b.in, binary.BigEndian, uint32(len(d)))
	b.in.Write(d)
	var n uint32
	if binary.Read(b.out, binary.BigEndian, &n) != nil {
		panic("harness: bzip2 helper ended")
	}
	r := make([]byte, n)
	io.ReadFull(b.out, r)
	return r
}

func archive(c *ctx, z *bz) {
	n := c.r.Intn(8)
	if c.r.Intn(10) == 0 {
		n = 13 + c.r.Intn(14)
	}
	type ent struct {
		data []byte
		w    *ref
	}
	var es []ent
	broken := false
	for i := 0; i < n; i++ {
		s := stream(c.r, opt{maxdim: 5, valid: 1, dims: pick(c.r, "GP", "BG")})
		if c.r.Intn(2) == 0 { // few distinct times, many forecasts
			s = withData(fmt.Sprintf("FX0808%02d100000615", 10+c.r.Intn(2)), fmt.Sprintf("GP1x2VV %03d", 5*c.r.Intn(9)), 4)
			s[len(s)-1] = byte(i)
			s[len(s)-2] = byte(c.r.Intn(256))
		}
		if c.r.Intn(40) == 0 {
			s = mutate(c.r, s)
		}
		w := refRead(s)
		if !w.plain || !w.minutesOK {
			return
		}
		if !w.ok || w.unit == "unknown unit" {
			broken = true
		}
		es = append(es, ent{s, w})
	}
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for i, e := range es {
		tw.WriteHeader(&tar.Header{Name: fmt.Sprintf("raa%02d_%d", c.r.Intn(50), i), Mode: 0644, Size: int64(len(e.data)), ModTime: time.Unix(1e9, 0)})
		tw.Write(e.data)
	}
	tw.Close()
	raw := tb.Bytes()
	arch := z.compress(raw)
	what := "archive"
	switch c.r.Intn(12) {
	case 0: // cut in the compressed stream
		arch = arch[:c.r.Intn(len(arch)/2)]
		broken = true
	case 1: // cut in the tar stream, inside an entry
		if n > 0 {
			arch = z.compress(raw[:512+c.r.Intn(len(es[0].data)/2+1)])
			if len(es[0].data) > 0 {
				broken = true
			}
			what = "truncated archive"
			es = es[:0]
			if !broken {
				return
			}
		}
	case 2:
		arch = append([]byte("x"), arch...)
		broken = true
	}
	in := fmt.Sprintf("%s of %d entries, broken: %v", what, n, broken)
	c.begin(in, arch)
	var cs []*radolan.Composite
	var err error
	if p := guard(func() { cs, err = radolan.NewComposites(bytes.NewReader(arch)) }); p != nil {
		c.fail("archive", in, arch, "composites or error", p)
		return
	}
	if broken {
		if err == nil || len(cs) != 0 {
			c.fail("broken archive", in, arch, "error and no composites", fmt.Sprint(len(cs), " composites, error ", err))
		}
		return
	}
	if err != nil || len(cs) != len(es) {
		c.fail("archive", in, arch, fmt.Sprint(len(es), " composites"), fmt.Sprint(len(cs), " composites, error ", err))
		return
	}
	for i := 1; i < len(cs); i++ {
		if cs[i].ForecastTime.Before(cs[i-1].ForecastTime) {
			c.fail("archive order", in, arch, "non-decreasing forecast times", fmt.Sprint(cs[i-1].ForecastTime, " then ", cs[i].ForecastTime))
		}
	}
	key := func(product string, cap, fc time.Time, rows [][]float32) string {
		return fmt.Sprint(product, cap.Unix(), " ", fc.Unix(), " ", rows)
	}
	var a, b []string
	for _, e := range es {
		a = append(a, key(e.w.product, e.w.capture, e.w.forecast, e.w.rows))
	}
	for _, co := range cs {
		if co == nil {
			b = append(b, "nil")
			continue
		}
		b = append(b, key(co.Product, co.CaptureTime, co.ForecastTime, co.PlainData))
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			c.fail("archive contents", in, arch, clip(a[i], 400), clip(b[i], 400))
			return
		}
	}
}

// ---------------------------------------------------------------- images

func blank(img *image.RGBA) bool {
	for _, b := range img.Pix {
		if b != 0 {
			return false
		}
	}
	return true
}

func render(c *ctx, co *radolan.Composite, in string, s []byte, fn vis.ColorFunc, layer int) {
	in = fmt.Sprintf("layer %d of %d, %d x %d, %s", layer, co.Dz, co.Dx, co.Dy, in)
	c.begin(in, s)
	var img *image.RGBA
	if p := guard(func() { img = vis.Image(fn, co, layer) }); p != nil || img == nil {
		c.fail("render", in, s, "image", p)
		return
	}
	if img.Bounds().Dx() != co.Dx || img.Bounds().Dy() != co.Dy || img.Bounds().Min != (image.Point{}) {
		c.fail("image size", in, s, fmt.Sprint(co.Dx, co.Dy), img.Bounds())
		return
	}
	if layer < 0 || layer >= co.Dz {
		if !blank(img) {
			c.fail("missing layer", in, s, "blank image", "painted")
		}
		return
	}
	for y := 0; y < co.Dy; y++ {
		for x := 0; x < co.Dx; x++ {
			if got, want := img.RGBAAt(x, y), fn(float64(co.DataZ[layer][y][x])); got != want {
				c.fail("pixel", fmt.Sprintf("(%d, %d) %s", x, y, in), s, want, got)
				return
			}
		}
	}
}

func hashColor(v float64) color.RGBA {
	b := math.Float64bits(v) * 0x9E3779B97F4A7C15
	return color.RGBA{byte(b >> 56), byte(b >> 48), byte(b >> 40), byte(b>>32) | 1}
}

// ---------------------------------------------------------------- state

func deep(v reflect.Value, out *bytes.Buffer, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			out.WriteString("nil")
			return
		}
		out.WriteByte('&')
		deep(v.Elem(), out, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().String() == "time.Location" {
				out.WriteString("loc")
				return
			}
			out.WriteString(v.Type().Field(i).Name + ":")
			deep(v.Field(i), out, depth+1)
			out.WriteByte(';')
		}
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(out, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), out, depth+1)
			out.WriteByte(',')
		}
		out.WriteByte(']')
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			var b bytes.Buffer
			deep(k, &b, depth+1)
			ks = append(ks, b.String())
			m[b.String()] = v.MapIndex(k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out.WriteString(k + "=")
			deep(m[k], out, depth+1)
			out.WriteByte(' ')
		}
	case reflect.Func:
		fmt.Fprint(out, "func ", v.Pointer())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(out, math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(out, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(out, v.Uint())
	case reflect.Bool:
		fmt.Fprint(out, v.Bool())
	case reflect.String:
		fmt.Fprintf(out, "%q", v.String())
	default:
		out.WriteString(v.Kind().String())
	}
}

func snap(x interface{}) string {
	var b bytes.Buffer
	deep(reflect.ValueOf(x), &b, 0)
	return b.String()
}

func globals() map[string]string {
	m := map[string]string{}
	for _, h := range []map[string]interface{}{radolan.VerifGlobals, vis.VerifGlobals} {
		for k, v := range h {
			m[k] = snap(v)
		}
	}
	return m
}

func init() {
	checks["C12"] = func(c *ctx) {
		toDBZ, ok1 := hook("toDBZ").(func(float32) float32)
		toRVP6, ok2 := hook("toRVP6").(func(float32) float32)
		if ok1 {
			last := float32(math.Inf(-1))
			for n := 0; n <= 4095; n++ {
				c.begin(fmt.Sprint("toDBZ ", n), nil)
				d := toDBZ(float32(n))
				if d != float32(n)/2-32.5 || !(d >= last) {
					c.fail("toDBZ", fmt.Sprint("toDBZ(", n, ")"), nil, float32(n)/2-32.5, d)
				}
				last = d
				if ok2 && toRVP6(d) != float32(n) {
					c.fail("toRVP6", fmt.Sprint("toRVP6(toDBZ(", n, "))"), nil, n, toRVP6(d))
				}
			}
			for i := 0; i < 20000; i++ {
				a, b := float32(c.r.NormFloat64()*1000), float32(c.r.NormFloat64()*1000)
				if a < b && (toDBZ(a) > toDBZ(b) || (ok2 && toRVP6(a) > toRVP6(b))) {
					c.fail("order", fmt.Sprint(a, b), nil, "order kept", "reversed")
				}
			}
		}
		if ok2 {
			for i := -100; i < 5000; i++ {
				d := float32(i)/2 - 32.5
				if toRVP6(d) != float32(i) {
					c.fail("toRVP6", fmt.Sprint("toRVP6(", d, ")"), nil, i, toRVP6(d))
				}
			}
		}
		// the same through a file
		var d []byte
		for i := 0; i < 4096; i++ {
			d = append(d, byte(i), byte(i>>8))
		}
		s := append(sized("RX080830100000615", "GP64x64", len(d)), d...)
		compare(c, s, "dBZ of raw values", func(res result, w *ref) { cells(c, s, "dBZ of raw values", res, w) })
		if !radolan.IsNaN(nan32) || radolan.IsNaN(0) || radolan.IsNaN(float32(math.Inf(1))) || radolan.IsNaN(-1e30) {
			c.fail("IsNaN", "NaN, 0, +Inf, -1e30", nil, "true false false false", "otherwise")
		}
		if radolan.NaN == radolan.NaN {
			c.fail("NaN", "NaN", nil, "NaN", radolan.NaN)
		}
		type rel struct {
			name string
			zr   radolan.ZR
			a, b float64
		}
		rels := []rel{{"Aniol80", radolan.Aniol80, 256, 1.42}, {"Doelling98", radolan.Doelling98, 316, 1.5}, {"JossWaldvogel70", radolan.JossWaldvogel70, 300, 1.5}, {"MarshallPalmer55", radolan.MarshallPalmer55, 200, 1.6}}
		for i := 0; ; i++ {
			var q rel
			if i < len(rels) {
				q = rels[i]
			} else {
				if c.over() {
					break
				}
				a, b := math.Exp(c.r.NormFloat64()*3+3), math.Exp(c.r.NormFloat64()*0.7)
				switch c.r.Intn(6) {
				case 0:
					a, b = 1, 1
				case 1:
					a = 1
				case 2:
					b = 1
				}
				q = rel{fmt.Sprintf("NewZR(%v, %v)", a, b), radolan.NewZR(a, b), a, b}
			}
			last := -1.0
			for k := -70; k <= 160; k++ {
				dbz := float32(k) / 2
				if c.r.Intn(2) == 0 {
					dbz += float32(c.r.Float64() / 4)
				}
				in := fmt.Sprintf("%s, %v dBZ", q.name, dbz)
				c.begin(in, nil)
				r := radolan.PrecipitationRate(q.zr, dbz)
				z := math.Pow(10, float64(dbz)/10)
				want := math.Pow(z/q.a, 1/q.b)
				if !(math.Abs(r-want) <= 1e-9*want*(1+50/q.b)) {
					c.fail("rain rate", in, nil, want, r)
				}
				if !(r > last) && want > 0 {
					c.fail("monotonic", in, nil, "a larger rate than at less reflectivity", fmt.Sprint(last, " then ", r))
				}
				last = r
				back := radolan.Reflectivity(q.zr, r)
				if r > 1e-300 && !(math.Abs(float64(back-dbz)) <= 1e-5*(10+math.Abs(float64(dbz)))) {
					c.fail("inverse", in, nil, dbz, back)
				}
			}
			for k := 0; k < 20; k++ {
				r := math.Exp(c.r.NormFloat64() * 4)
				in := fmt.Sprintf("%s, %v mm/h", q.name, r)
				got := float64(radolan.Reflectivity(q.zr, r))
				want := 10 * (math.Log10(q.a) + q.b*math.Log10(r))
				if !(math.Abs(got-want) <= 1e-5*(10+math.Abs(want))) {
					c.fail("reflectivity", in, nil, want, got)
				}
			}
		}
	}
	checks["C13"] = func(c *ctx) {
		for k := 0; k < 52; k++ {
			for _, g := range append(append([]gridRef{}, grids...), gridRef{w: 225, h: 225}, gridRef{w: 25, h: 25}, gridRef{w: 115, h: 115}, gridRef{w: 275, h: 300}, gridRef{w: 460, h: 460}, gridRef{w: 1500, h: 1400}, gridRef{w: 1200, h: 1100},
				gridRef{w: 200, h: 200}, gridRef{w: 200, h: 224}, gridRef{w: 700, h: 700}, gridRef{w: 1100, h: 900}) {
				for f := -1; f <= 8; f++ {
					for _, d := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {-1, -1}} {
						availability(c, g.w<<uint(k)+d[0], g.h<<uint(k)+d[1], f)
						availability(c, g.w>>uint(k%12)+d[0], g.h>>uint(k%12)+d[1], f)
						availability(c, -(g.w << uint(k)), -(g.h << uint(k)), f)
						availability(c, g.w<<uint(k), g.h<<uint((k+1)%52), f)
						availability(c, g.w<<uint(k), -(g.h << uint(k)), f)
					}
				}
			}
		}
		for _, v := range []int{0, -1, math.MinInt64, math.MaxInt64, 1 << 62, -1 << 62} {
			for _, w := range []int{0, 1, -1, 900, math.MinInt64, math.MaxInt64, 1 << 62, -900} {
				availability(c, v, w, 3)
				availability(c, w, v, 3)
				availability(c, w, v, 5)
			}
		}
		for f := 3; f <= 5 && !c.over(); f += 2 {
			for dx := 0; dx <= 1600 && !c.over(); dx++ {
				for dy := dx % 3; dy <= 1600; dy += 3 {
					co := radolan.NewDummy("", f, dx, dy)
					if co.HasProjection != (offered(dx, dy, f) != nil) {
						availability(c, dx, dy, f)
					}
				}
			}
		}
		for !c.over() {
			dx, dy := c.r.Intn(4000)-200, c.r.Intn(4000)-200
			if c.r.Intn(3) == 0 {
				g := grids[c.r.Intn(len(grids))]
				k := uint(c.r.Intn(6))
				dx, dy = g.w<<k, g.h<<k
				if c.r.Intn(2) == 0 {
					dx, dy = g.w>>min(k, 2), g.h>>min(k, 2)
				}
			}
			availability(c, dx, dy, c.r.Intn(12)-2)
			if c.r.Intn(20) == 0 { // parsed composites
				s := stream(c.r, opt{maxdim: 30, valid: 1})
				compare(c, s, "projection of files", func(res result, w *ref) {
					if res.c.HasProjection != (offered(w.dx, w.dy, w.format) != nil) {
						c.fail("availability for files", describe(s), s, offered(w.dx, w.dy, w.format) != nil, res.c.HasProjection)
					}
					if w.res == 0 && !res.c.HasProjection && (res.c.Rx == res.c.Rx || res.c.Ry == res.c.Ry) {
						c.fail("resolution for files", describe(s), s, "NaN", fmt.Sprint(res.c.Rx, res.c.Ry))
					}
				})
			}
		}
	}
	checks["C14"] = func(c *ctx) {
		for !c.over() {
			for i := range grids {
				g := grids[i]
				k := c.r.Intn(9)
				dx, dy := g.w, g.h
				for ; k > 0; k-- {
					if c.r.Intn(2) == 0 && dx%2 == 0 && dy%2 == 0 {
						dx, dy = dx/2, dy/2
					} else if c.r.Intn(3) == 0 {
						dx, dy = dx*2, dy*2
					}
				}
				f := c.r.Intn(9) - 1
				co := radolan.NewDummy("XX", f, dx, dy)
				projection(c, co, fmt.Sprintf("NewDummy(format %d, %d x %d)", f, dx, dy), dx, dy, f)
				if g := offered(dx, dy, f); g != nil && dx == g.w {
					if !(math.Abs(co.Rx-1) < 0.001 && math.Abs(co.Ry-1) < 0.001) {
						c.fail("full-size resolution", fmt.Sprintf("%d x %d, format %d", dx, dy, f), nil, "1 km", fmt.Sprint(co.Rx, co.Ry))
					}
				}
			}
			if c.r.Intn(50) == 0 { // through files
				g := grids[c.r.Intn(len(grids))]
				f := pickInt(c.r, 0, 3, 4, 5, 6)
				h, w := g.h/4, g.w/4
				s := withData("FX080830100000615", fmt.Sprintf("GP%dx%dVS %d", h, w, f), h*w)
				compare(c, s, "projection of files", func(res result, r *ref) {
					projection(c, res.c, describe(s), w, h, f)
				})
			}
		}
	}
	checks["C15"] = func(c *ctx) {
		z := newBz()
		if z == nil {
			return
		}
		for !c.over() {
			archive(c, z)
		}
	}
	checks["C16"] = func(c *ctx) {
		fns := []vis.ColorFunc{hashColor, vis.GraymapLinear, vis.HeatmapReflectivity, vis.HeatmapRadialVelocity, func(float64) color.RGBA { return color.RGBA{1, 2, 3, 0} }}
		for i := 0; !c.over(); i++ {
			o := opt{maxdim: 20, valid: 1}
			if i < 12 {
				o.dims = "cat"
			}
			s := stream(c.r, o)
			res := read(c, "image", s)
			if !res.succeeded() {
				continue
			}
			for _, l := range []int{0, c.r.Intn(max(res.c.Dz, 1)), res.c.Dz - 1, res.c.Dz, -1, res.c.Dz + 5, math.MinInt64, math.MaxInt64, 1} {
				render(c, res.c, describe(s), s, fns[c.r.Intn(len(fns))], l)
			}
			d := radolan.NewDummy("XX", 3, c.r.Intn(60), c.r.Intn(60))
			render(c, d, "dummy", nil, fns[0], c.r.Intn(3)-1)
		}
	}
	checks["C17"] = func(c *ctx) {
		for !c.over() {
			min := c.r.NormFloat64() * 50
			max := min + math.Exp(c.r.NormFloat64()*3)
			logc := c.r.Intn(2) == 0
			kind := pick(c.r, "gray", "heat", "radial")
			if logc && kind != "radial" {
				min = math.Exp(c.r.NormFloat64())
				max = min * (1 + math.Exp(c.r.NormFloat64()*2))
			}
			if kind == "radial" {
				min, max = -math.Exp(c.r.NormFloat64())*30, math.Exp(c.r.NormFloat64())*30
				if math.Max(-min, max) <= 1.01 {
					continue
				}
			}
			if !(min < max) {
				continue
			}
			comp := vis.Id
			if logc {
				comp = vis.Log
			}
			f := map[string]func(float64, float64, func(float64) float64) vis.ColorFunc{"gray": vis.Graymap, "heat": vis.Heatmap, "radial": vis.Radialmap}[kind]
			gradient(c, kind, min, max, logc, f(min, max, comp), fmt.Sprintf("%s map (%v, %v, log %v)", kind, min, max, logc))
		}
	}
	checks["C19"] = func(c *ctx) {
		for !c.over() {
			gradient(c, "heat", 5, 75, false, vis.HeatmapReflectivityShort, "HeatmapReflectivityShort")
			gradient(c, "heat", 1, 75, false, vis.HeatmapReflectivity, "HeatmapReflectivity")
			gradient(c, "heat", -32.5, 75, false, vis.HeatmapReflectivityWide, "HeatmapReflectivityWide")
			gradient(c, "heat", 0.1, 100, true, vis.HeatmapAccumulatedHour, "HeatmapAccumulatedHour")
			gradient(c, "heat", 0.1, 200, true, vis.HeatmapAccumulatedDay, "HeatmapAccumulatedDay")
			gradient(c, "radial", -31.5, 31.5, true, vis.HeatmapRadialVelocity, "HeatmapRadialVelocity")
			gradient(c, "gray", 0, 409.5, false, vis.GraymapLinear, "GraymapLinear")
			gradient(c, "gray", 0, 4095, false, vis.GraymapLinearWide, "GraymapLinearWide")
		}
	}
	checks["C18"] = func(c *ctx) {
		before := globals()
		z := newBz()
		state := func(what string, s []byte) {
			for k, v := range globals() {
				if before[k] != v {
					c.fail("package state changed by "+what, k, s, clip(before[k], 300), clip(v, 300))
					before[k] = v
				}
			}
		}
		type past struct {
			s    []byte
			out  string
			dump string
			c    *radolan.Composite
		}
		one := func(s []byte) past {
			var p past
			p.s = s
			c.begin("history", s)
			var err error
			if e := guard(func() { p.c, err = radolan.NewComposite(bytes.NewReader(s)) }); e != nil {
				err = fmt.Errorf("%v", e)
			}
			p.out = fmt.Sprint(err)
			p.dump = snap(p.c)
			return p
		}
		var hist []past
		for i := 0; !c.over(); i++ {
			o := opt{maxdim: 8, valid: 1}
			if c.r.Intn(4) == 0 {
				o.valid = 0.85
			}
			if i%100 == 7 {
				o.dims = "cat"
			}
			s := stream(c.r, o)
			if c.r.Intn(20) == 0 {
				g := grids[c.r.Intn(len(grids))]
				s = withData("FX080830100000615", fmt.Sprintf("GP%dx%dVS %d", g.h/4, g.w/4, pickInt(c.r, 3, 5)), g.h/4*g.w/4)
			}
			p := one(s)
			hist = append(hist, p)
			if i%50 == 0 {
				state("reading", s)
			}
			if p.c == nil {
				continue
			}
			// operations that must not change the composite
			q := p.c
			ok := p.out == "<nil>" || p.out == radolan.ErrUnknownUnit.Error()
			guard(func() {
				for k := 0; k < 5; k++ {
					q.At(c.r.Intn(10)-1, c.r.Intn(10)-1)
					q.AtZ(c.r.Intn(10)-1, c.r.Intn(10)-1, c.r.Intn(3)-1)
					q.Project(c.r.Float64()*20+40, c.r.Float64()*20)
				}
				if ok {
					vis.Image(vis.GraymapLinear, q, 0)
					vis.Image(vis.HeatmapReflectivity, q, 1)
				}
				radolan.PrecipitationRate(radolan.Aniol80, q.At(0, 0))
				radolan.Reflectivity(radolan.Aniol80, 3)
			})
			if d := snap(q); d != p.dump {
				c.fail("composite changed by a read-only operation", describe(s), s, clip(diff(p.dump, d), 300), clip(diff(d, p.dump), 300))
			}
			// an older stream gives the same again; older composites are untouched
			h := hist[c.r.Intn(len(hist))]
			if r := one(h.s); r.out != h.out || r.dump != h.dump {
				c.fail("result depends on history", describe(h.s), h.s, clip(h.out+" "+diff(h.dump, r.dump), 400), clip(r.out+" "+diff(r.dump, h.dump), 400))
			}
			if snap(h.c) != h.dump {
				c.fail("earlier composite changed by a later call", describe(h.s), h.s, "unchanged", clip(diff(snap(h.c), h.dump), 300))
			}
			if len(hist) > 40 {
				hist = hist[1:]
			}
			if i%40 == 3 && z != nil {
				archive(c, z)
				state("reading an archive", nil)
			}
			if i%10 == 0 {
				g := grids[c.r.Intn(len(grids))]
				f := pickInt(c.r, 3, 5)
				a := radolan.NewDummy("X", f, g.w, g.h)
				da := snap(a)
				n, e := c.r.Float64()*20+40, c.r.Float64()*20
				x, y := a.Project(n, e)
				b := radolan.NewDummy("X", 8-f, g.w, g.h)
				b.Project(n+1, e)
				radolan.NewDummy("X", 5, 1100, 1200).Project(e, n)
				x2, y2 := a.Project(n, e)
				if !same64(x, x2) || !same64(y, y2) || snap(a) != da || snap(radolan.NewDummy("X", f, g.w, g.h)) != da {
					c.fail("projection depends on history", fmt.Sprintf("%d x %d format %d at %v %v", g.w, g.h, f, n, e), nil, fmt.Sprint(x, y), fmt.Sprint(x2, y2))
				}
			}
			if i%20 == 0 {
				// colour functions keep no memory
				for name, f := range map[string]vis.ColorFunc{"gray": vis.GraymapLinear, "heat": vis.HeatmapReflectivity, "radial": vis.HeatmapRadialVelocity, "log": vis.HeatmapAccumulatedHour, "new": vis.Heatmap(1, 9, vis.Log)} {
					v := c.r.NormFloat64() * 40
					a := f(v)
					for k := 0; k < 5; k++ {
						f(c.r.NormFloat64() * 100)
					}
					f(math.NaN())
					if b := f(v); a != b {
						c.fail("colour depends on history", fmt.Sprint(name, " at ", v), nil, a, b)
					}
				}
				state("colouring", nil)
			}
			if i%200 == 5 {
				// concurrent calls on different objects
				var wg sync.WaitGroup
				bad := make(chan past, 100)
				for g := 0; g < 8; g++ {
					for _, h := range hist[:min(len(hist), 6)] {
						wg.Add(1)
						go func(h past) {
							defer wg.Done()
							defer func() { recover() }()
							r, err := radolan.NewComposite(bytes.NewReader(h.s))
							if fmt.Sprint(err) != h.out && h.out[:min(5, len(h.out))] != "panic" || snap(r) != h.dump {
								bad <- h
							}
						}(h)
					}
				}
				wg.Wait()
				select {
				case h := <-bad:
					c.fail("concurrent reads interfere", describe(h.s), h.s, "the same result as alone", "another")
				default:
				}
			}
		}
		state("the whole history", nil)
	}
	checks["C01"] = func(c *ctx) {
		z := newBz()
		use := func(co *radolan.Composite, s []byte, in string, image bool) {
			if co == nil {
				return
			}
			for k := 0; k < 6; k++ {
				x, y, zz := pickInt(c.r, -1, 0, co.Dx-1, co.Dx, c.r.Intn(300), math.MaxInt64, math.MinInt64), pickInt(c.r, -1, 0, co.Dy-1, co.Dy, c.r.Intn(300)), pickInt(c.r, -1, 0, co.Dz-1, co.Dz, 3)
				n, e := c.r.NormFloat64()*60, c.r.NormFloat64()*90
				if p := guard(func() { co.At(x, y); co.AtZ(x, y, zz); co.Project(n, e) }); p != nil {
					c.fail("use of the composite", fmt.Sprintf("At(%d, %d), AtZ(.., %d), Project(%v, %v) of %s", x, y, zz, n, e, in), s, "no panic", p)
				}
			}
			if image {
				l := pickInt(c.r, 0, -1, co.Dz, co.Dz-1, 1)
				if p := guard(func() { vis.Image(vis.HeatmapReflectivity, co, l) }); p != nil {
					c.fail("rendering", fmt.Sprintf("layer %d of %s", l, in), s, "no panic", p)
				}
			}
		}
		fixed := [][]byte{}
		for _, f := range []string{"GP99999x99999", "GP0x0", "GP-1x-1", "GP1x0", "GP0x1", "GP-2x3", "GP20000x20000", "GP16385x16385", "GP1x1LV", "GP1x1LV ", "GP1x1LV-1", "GP1x1LV99", "GP1x1LV 0", "GP1x1LV 1", "GP1x1LV 1abcde", "LV", "E", "GP1x1E99999",
			"GP1x1E-99999", "GP1x1E9223372036854775807", "BG000000", "BG-1-2", "BG", "GP", "INT", "VV", "VS", "GP1x1VS-5", "GP1x1VS99", "GP1x1VV9223372036854775807", "GP1x1INT9223372036854775807", "GP9223372036854775807x9223372036854775807",
			"GP4294967296x4294967296", "GP3037000500x3037000500", "GP1x-9223372036854775808", "GP2147483648x2", "GP99999x1", "GP1x99999", "GP1x1099511627776", "GP1x1MS<\xff\xfe>", "GP1x1\xc3\x84", "BY", "BY-", "BYGP1x1", "GP225x225VS 5", "GP275x300VS 5", "GP300x275VS 5"} {
			for _, n := range []int{0, 1, 2, 8} {
				for _, p := range []string{"RX", "PG", "PZ", "ZZ", "\x00\x01", "é"} {
					fixed = append(fixed, withData(p+"080830100000615", f, n), []byte(p+"080830100000615"+f+"\x03"), []byte(p+"080830100000615BY"+f+"\x03abcdef\nghi\n"))
				}
			}
		}
		for _, s := range []string{"", "\x03", "\x03\x03", "RX\x03", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa\x03", "                        \x03", "0123456789012345678901234\x03", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\x03", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x03"} {
			fixed = append(fixed, []byte(s))
		}
		for i := 0; !c.over(); i++ {
			var s []byte
			switch {
			case i < len(fixed):
				s = fixed[i]
			case i%4 == 0:
				s = stream(c.r, opt{maxdim: 30, valid: 1})
			case i%4 == 1:
				s = stream(c.r, opt{maxdim: 30, valid: 0.9})
			case i%4 == 2:
				s = mutate(c.r, stream(c.r, opt{maxdim: 30, valid: 0.95}))
			default:
				s = mutate(c.r, stream(c.r, opt{maxdim: 6, valid: 0.7, shuffle: true}))
			}
			if i == len(fixed)+40 || i == len(fixed)+80 {
				s = stream(c.r, opt{maxdim: 30, valid: 1, dims: "cat"})
			}
			if w := refRead(s); w.headerOK && w.px*w.py > 9000000 {
				continue
			}
			res := read(c, "stream", s)
			if res.panik != nil {
				c.fail("reading", describe(s), s, "composite or error", res.panik)
				continue
			}
			if res.c == nil && res.err == nil {
				c.fail("reading", describe(s), s, "composite or error", "neither")
			}
			use(res.c, s, describe(s), res.succeeded())
			if i%3 == 0 {
				dx, dy, f := pickInt(c.r, 0, -1, 1, 900, 1100, 225, -900, c.r.Intn(2000), math.MinInt64, math.MaxInt64, 1<<62), pickInt(c.r, 0, -1, 1, 900, 1200, 225, -900, c.r.Intn(2000), math.MinInt64, 1<<62), c.r.Intn(9)-1
				in := fmt.Sprintf("NewDummy(format %d, %d x %d)", f, dx, dy)
				c.begin(in, nil)
				var d *radolan.Composite
				if p := guard(func() { d = radolan.NewDummy("ZZ", f, dx, dy) }); p != nil {
					c.fail("dummy", in, nil, "no panic", p)
				} else {
					use(d, nil, in, false)
				}
			}
			if i%60 == 0 && z != nil {
				archive(c, z)
				b := mutate(c.r, z.compress(s))
				c.begin("archive", b)
				if p := guard(func() { radolan.NewComposites(bytes.NewReader(b)) }); p != nil {
					c.fail("archive", "damaged archive", b, "composites or error", p)
				}
			}
		}
	}
}

// diff: the part of a around the first difference from b
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return clip(a[max(0, i-40):], 160)
}
