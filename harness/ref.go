package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"time"
)

// The reference reader: the properties, executed. It shares no code with the package.

var nan32 = float32(math.NaN())

const units = "" +
	"CH=mm CX=dBZ D2=mm D3=mm EA=dBZ EB=mm EC=mm EH=mm EM=mm EW=mm EX=dBZ EY=mm EZ=mm FX=dBZ FZ=dBZ HX=dBZ OL=dBZ OX=dBZ PA=dBZ PC=dBZ PD=m/s PE=km PF=dBZ " +
	"PG=dBZ PH=mm PI=dBZ PK=dBZ PL=dBZ PM=dBZ PN=dBZ PR=m/s PU=m/s PV=m/s PX=dBZ PY=mm PZ=dBZ RA=mm RB=mm RE=mm RH=mm RK=mm RL=mm RM=mm RN=mm RQ=mm RR=mm " +
	"RU=mm RW=mm RX=dBZ RY=mm RZ=mm S2=mm S3=mm SF=mm SH=mm SQ=mm TB=mm TH=mm TW=mm TX=dBZ TZ=mm W1=mm W2=mm W3=mm W4=mm WN=dBZ WX=dBZ YW=mm"

var unitOf = map[string]string{}
var labels []string

var catalogPy = map[string]int{"OL": 224, "OX": 224, "PD": 224, "PE": 224, "PF": 224, "PH": 224, "PL": 224, "PM": 224, "PR": 224, "PU": 2400, "PV": 224, "PX": 224, "PY": 224, "PZ": 2400}
var catalogRes = map[string]float64{"OL": 2, "OX": 1, "PD": 1, "PE": 2, "PF": 1, "PH": 1, "PL": 2, "PM": 2, "PR": 1, "PU": 1, "PV": 1, "PX": 1, "PY": 1, "PZ": 2}
var catalogLabels []string

func init() {
	for _, m := range regexp.MustCompile(`(\w\w)=(\S+)`).FindAllStringSubmatch(units, -1) {
		unitOf[m[1]] = m[2]
		labels = append(labels, m[1])
	}
	for _, l := range labels {
		if catalogPy[l] > 0 {
			catalogLabels = append(catalogLabels, l)
		}
	}
}

type ref struct {
	plain bool // ASCII header beginning with an upper-case letter: everything below is defined
	ok    bool // the read succeeds (possibly with the unknown-unit error)
	why   string
	// header
	headerOK          bool
	product, unit     string
	capture, forecast time.Time
	interval          time.Duration
	minutesOK         bool
	format, precision int
	level             []float32
	px, py, dx, dy    int
	res               float64 // 0: not catalogued
	encoding          string
	rows              [][]float32 // nil: not complete
	fields            map[string]string
}

var fieldRE = regexp.MustCompile(`([A-Z]+)([^A-Z]*)`)

func scanInt(s string, v *int) bool { _, err := fmt.Sscanf(s, "%d", v); return err == nil }

func refRead(data []byte) *ref {
	r := &ref{minutesOK: true}
	end := bytes.IndexByte(data, 3)
	if end < 0 {
		r.why, r.plain = "no header", true
		return r
	}
	h := string(data[:end])
	body := data[end+1:]
	if len(h)+1 < 22 {
		r.why, r.plain = "short header", true
		return r
	}
	for i := 0; i < len(h); i++ {
		if h[i] >= 128 {
			return r
		}
	}
	if h[0] < 'A' || h[0] > 'Z' {
		return r
	}
	r.plain = true
	r.fields = map[string]string{}
	for _, m := range fieldRE.FindAllStringSubmatch(h, -1) {
		r.fields[m[1]] = m[2]
	}
	r.product = h[:2]
	r.unit = "unknown unit"
	if u, ok := unitOf[r.product]; ok {
		r.unit = u
	}
	var by int
	if !scanInt(r.fields["BY"], &by) {
		r.why = "BY"
		return r
	}
	var err error
	r.capture, err = time.Parse("02 1504 01 06", h[2:4]+" "+h[4:8]+" "+h[13:15]+" "+h[15:17])
	if err != nil {
		r.why = "date"
		return r
	}
	r.forecast = r.capture
	if f, ok := r.fields["VV"]; ok {
		var m int
		if !scanInt(f, &m) {
			r.why = "VV"
			return r
		}
		if m > 100000000 || m < -100000000 {
			r.minutesOK = false
		}
		r.forecast = r.capture.Add(time.Duration(m) * time.Minute)
	}
	if f, ok := r.fields["INT"]; ok {
		var m int
		if !scanInt(f, &m) {
			r.why = "INT"
			return r
		}
		if m > 15000000 || m < -15000000 {
			r.minutesOK = false
		}
		r.interval = time.Duration(m) * time.Minute
		if len(r.product) == 2 && r.product[0] == 'W' && r.product[1] >= '1' && r.product[1] <= '4' {
			r.interval *= 10
		}
	}
	if f, ok := r.fields["GP"]; ok {
		if _, err := fmt.Sscanf(f, "%dx%d", &r.dy, &r.dx); err != nil {
			r.why = "GP"
			return r
		}
		r.px, r.py = r.dx, r.dy
	} else if f, ok := r.fields["BG"]; ok {
		if _, err := fmt.Sscanf(f, "%3d%3d", &r.dy, &r.dx); err != nil {
			r.why = "BG"
			return r
		}
		r.px, r.py = r.dx, r.dy
	} else {
		if catalogPy[r.product] == 0 {
			r.why = "no dimensions"
			return r
		}
		r.px, r.py, r.dx, r.dy = 200, catalogPy[r.product], 200, 200
		r.res = catalogRes[r.product]
	}
	if r.dx < 1 || r.dy < 1 || r.dx > 16384 || r.dy > 16384 {
		r.why = "dimensions out of range"
		return r
	}
	if f, ok := r.fields["E"]; ok && !scanInt(f, &r.precision) {
		r.why = "E"
		return r
	}
	if f, ok := r.fields["LV"]; ok {
		var n int
		if len(f) < 2 || !scanInt(f[:2], &n) || len(f) != 2+5*n {
			r.why = "LV"
			return r
		}
		r.level = make([]float32, n)
		for i := range r.level {
			if _, err := fmt.Sscanf(f[2+5*i:7+5*i], "%f", &r.level[i]); err != nil {
				r.why = "LV item"
				return r
			}
		}
	}
	if f, ok := r.fields["VS"]; ok && !scanInt(f, &r.format) {
		r.why = "VS"
		return r
	}
	r.headerOK = true
	size := by - (len(h) + 1)
	if by > 100000000 || by < -100000000 {
		size = -1
	}
	switch {
	case r.level != nil:
		r.encoding = "runlength"
	case size == 2*r.px*r.py:
		r.encoding = "two-byte"
	case size == r.px*r.py:
		r.encoding = "one-byte"
	default:
		r.why = "unknown encoding"
		return r
	}
	rows := make([][]float32, r.py)
	for i := range rows {
		var row []float32
		switch r.encoding {
		case "two-byte", "one-byte":
			w := r.px
			if r.encoding == "two-byte" {
				w *= 2
			}
			if len(body) < w {
				r.why = "data too short"
				return r
			}
			row = make([]float32, r.px)
			for x := range row {
				if r.encoding == "two-byte" {
					row[x] = r.sample2(uint(body[2*x]) | uint(body[2*x+1])<<8)
				} else {
					row[x] = r.sample1(body[x])
				}
			}
			body = body[w:]
			rows[r.py-1-i] = row
		default:
			n := bytes.IndexByte(body, '\n')
			if n < 0 {
				r.why = "data too short"
				return r
			}
			row = r.expand(body[:n])
			if row == nil {
				r.why = "bad run-length line"
				return r
			}
			body = body[n+1:]
			rows[i] = row
		}
	}
	r.rows = rows
	r.ok = true
	return r
}

func (r *ref) scale(v int) float32 {
	f := float32(v) * float32(math.Pow10(r.precision))
	if r.unit == "dBZ" {
		return f/2 - 32.5
	}
	return f
}

func (r *ref) sample2(u uint) float32 {
	if u&(1<<13) != 0 {
		return nan32
	}
	v := int(u % 4096)
	if u&(1<<14) != 0 {
		v = -v
	}
	return r.scale(v)
}

func (r *ref) sample1(b byte) float32 {
	if b == 250 {
		return nan32
	}
	return r.scale(int(b))
}

func (r *ref) lvl(n int) float32 {
	if n >= 1 && n <= len(r.level) {
		return r.level[n-1]
	}
	return nan32
}

func (r *ref) expand(line []byte) []float32 {
	row := make([]float32, r.px)
	for i := range row {
		row[i] = nan32
	}
	if len(line) > 0 {
		line = line[1:]
	}
	pos := 0
	more := true
	for len(line) > 0 && more {
		if line[0] < 16 {
			return nil
		}
		pos += int(line[0]) - 16
		more = line[0] == 255
		line = line[1:]
	}
	for _, b := range line {
		for n := int(b) / 16; n > 0; n-- {
			if pos >= len(row) {
				return nil
			}
			row[pos] = r.lvl(int(b) % 16)
			pos++
		}
	}
	return row
}

func same32(a, b float32) bool { return a == b || (a != a && b != b) }
func same64(a, b float64) bool { return a == b || (a != a && b != b) }
func near(a, b, eps float64) bool {
	if same64(a, b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= eps || d <= eps*math.Max(math.Abs(a), math.Abs(b))
}
