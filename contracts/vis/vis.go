//go:build verif

package vis

// Contracts of radolan2png/vis/vis.go: rendering.

//@ pure shown(fn, c, layer, x, y) = color(fn(float64(c.DataZ[layer][y][x])))

//@ func vis.Image(fn vis.ColorFunc, c *radolan.Composite, layer int) (img *image.RGBA)
//@ public
//@ requires c != nil && wellformed(c) && fn != nil
//@ requires 0 <= c.Dx && c.Dx <= 16384 && 0 <= c.Dy && c.Dy <= 16384
//@ invariant outer with (i *image.RGBA) 0 <= layer && layer < c.Dz ==> forall x, y :: 0 <= x && x < c.Dx && 0 <= y && y < c.Dy && y < $n ==> pix(i, x, y) == shown(fn, c, layer, x, y)
//@ invariant outer with (i *image.RGBA) 0 <= layer && layer < c.Dz ==> forall x, y :: 0 <= x && x < c.Dx && x < $n && 0 <= y && y < c.Dy ==> pix(i, x, y) == shown(fn, c, layer, x, y)
//@ invariant with (i *image.RGBA, r int) 0 <= layer && layer < c.Dz ==> forall x, y :: 0 <= x && x < c.Dx && 0 <= y && y < c.Dy && (y < r || (y == r && x < $n)) ==> pix(i, x, y) == shown(fn, c, layer, x, y)
//@ invariant with (i *image.RGBA, r int) 0 <= layer && layer < c.Dz ==> forall x, y :: 0 <= x && x < c.Dx && 0 <= y && y < c.Dy && (x < r || (x == r && y < $n)) ==> pix(i, x, y) == shown(fn, c, layer, x, y)
//@ ensures [C16] img != nil && fresh(img) && width(img) == c.Dx && height(img) == c.Dy
//@ ensures [C16] 0 <= layer && layer < c.Dz ==> forall x, y :: 0 <= x && x < c.Dx && 0 <= y && y < c.Dy ==> pix(img, x, y) == shown(fn, c, layer, x, y)
//@ ensures [C16] !(0 <= layer && layer < c.Dz) ==> forall x, y :: 0 <= x && x < c.Dx && 0 <= y && y < c.Dy ==> pix(img, x, y) == rgba(0, 0, 0, 0)

// ---------------------------------------------------------------- gradients

// In this part floats are the reals, NaN and the infinities; rounding is ignored.

//@ func vis.Id(x float64) (out float64)
//@ public
//@ floats real
//@ ensures [C17] out == x

//@ func vis.Log(x float64) (out float64)
//@ public
//@ floats real
//@ ensures [C17] isfinite(x) && rv(x) > 0 ==> isfinite(out) && rv(out) == rln(rv(x))
//@ ensures [C17] isnan(x) || x < 0.0 ==> isnan(out)

//@ pure range(a, b) = isfinite(a) && isfinite(b) && rv(a) < rv(b)
// position of v between a and b, capped at 1
//@ pure rel(a, b, v) = isfinite(v) && rv(v) <= rv(b) ? (rv(v) - rv(a)) / (rv(b) - rv(a)) : 1
//@ pure black() = rgba(0, 0, 0, 255)
//@ pure nodata(a, v) = isnan(v) || v < a
//@ pure gray(l) = rgba(l, l, l, 255)

//@ func vis.Graymap(min float64, max float64, compression func(float64) float64) (out vis.ColorFunc)
//@ public
//@ split
//@ floats real
//@ requires compression != nil
//@ closure [C17] with (val float64) out.A == 255
//@ closure [C17] range(compression(min), compression(max)) && nodata(compression(min), compression(val)) ==> color(out) == black()
//@ closure [C17] range(compression(min), compression(max)) && !nodata(compression(min), compression(val))
//@   ==> color(out) == gray(floor(255 * rel(compression(min), compression(max), compression(val))))

// hue in degrees, saturation 1, lightness l: the standard conversion to red, green and blue
//@ pure hue(p) = 600 - 330 * p >= 360 ? 240 - 330 * p : 600 - 330 * p
//@ pure hk(h, n) = h / 30 + n >= 12 ? h / 30 + n - 12 : h / 30 + n
//@ pure hsl1(l, k) = l - min(l, 1 - l) * max(0 - 1, min(min(k - 3, 9 - k), 1))
//@ pure hsl(h, l, n) = floor(255 * hsl1(l, hk(h, n)))
//@ pure heat(p) = rgba(hsl(hue(p), 0.25 + 0.5 * p, 0), hsl(hue(p), 0.25 + 0.5 * p, 8), hsl(hue(p), 0.25 + 0.5 * p, 4), 255)

//@ func vis.Heatmap(min float64, max float64, compression func(float64) float64) (out vis.ColorFunc)
//@ public
//@ timeout 15000
//@ split
//@ floats real
//@ requires compression != nil
//@ closure [C17] with (val float64) out.A == 255
//@ closure [C17] range(compression(min), compression(max)) && nodata(compression(min), compression(val)) ==> color(out) == black()
//@ closure [C17] range(compression(min), compression(max)) && !nodata(compression(min), compression(val))
//@   ==> color(out) == heat(rel(compression(min), compression(max), compression(val)))

// speeds: base is the larger magnitude of the bounds
//@ pure base(a, b) = math.max(math.abs(a), math.abs(b))
//@ pure speed(c, w) = isfinite(c) && rv(c) <= rv(w) ? floor(255 * (rv(c) / rv(w))) : 255
//@ pure side(v, l, n) = v < 0.0 ? rgba(n, l, l, 255) : rgba(l, n, n, 255)

//@ func vis.Radialmap(min float64, max float64, compression func(float64) float64) (out vis.ColorFunc)
//@ public
//@ split
//@ floats real
//@ requires compression != nil
//@ closure [C17] with (val float64) out.A == 255
//@ closure [C17] isnan(val) ==> color(out) == black()
//@ closure [C17] !isnan(val) && math.abs(val) <= 1.0 ==> color(out) == side(val, 255, 204)
//@ closure [C17] isfinite(min) && isfinite(max) && isfinite(compression(base(min, max))) && rv(compression(base(min, max))) > 0
//@   && !isnan(val) && math.abs(val) > 1.0 && compression(math.abs(val)) >= 0.0
//@   ==> color(out) == side(val, speed(compression(math.abs(val)), compression(base(min, max))), 0)

// ---------------------------------------------------------------- predefined gradients

// what the package-level colour functions show, as initialised

//@ lemma palette_reflectivity_short(v float64)
//@ floats real
//@ split
//@ timeout 15000
//@ run out := vis.HeatmapReflectivityShort(v)
//@ ensures [C19] nodata(5.0, v) ==> color(out) == black()
//@ ensures [C19] !nodata(5.0, v) ==> color(out) == heat(rel(5.0, 75.0, v))

//@ lemma palette_reflectivity(v float64)
//@ floats real
//@ split
//@ timeout 15000
//@ run out := vis.HeatmapReflectivity(v)
//@ ensures [C19] nodata(1.0, v) ==> color(out) == black()
//@ ensures [C19] !nodata(1.0, v) ==> color(out) == heat(rel(1.0, 75.0, v))

//@ lemma palette_reflectivity_wide(v float64)
//@ floats real
//@ split
//@ timeout 15000
//@ run out := vis.HeatmapReflectivityWide(v)
//@ ensures [C19] nodata(-32.5, v) ==> color(out) == black()
//@ ensures [C19] !nodata(-32.5, v) ==> color(out) == heat(rel(-32.5, 75.0, v))

//@ lemma palette_hour(v float64)
//@ floats real
//@ expand vis.Log
//@ split
//@ timeout 15000
//@ run out := vis.HeatmapAccumulatedHour(v)
//@ ensures [C19] nodata(math.log(0.1), math.log(v)) ==> color(out) == black()
//@ ensures [C19] !nodata(math.log(0.1), math.log(v)) ==> color(out) == heat(rel(math.log(0.1), math.log(100.0), math.log(v)))

//@ lemma palette_day(v float64)
//@ floats real
//@ expand vis.Log
//@ split
//@ timeout 15000
//@ run out := vis.HeatmapAccumulatedDay(v)
//@ ensures [C19] nodata(math.log(0.1), math.log(v)) ==> color(out) == black()
//@ ensures [C19] !nodata(math.log(0.1), math.log(v)) ==> color(out) == heat(rel(math.log(0.1), math.log(200.0), math.log(v)))

//@ lemma palette_gray(v float64)
//@ floats real
//@ split
//@ run out := vis.GraymapLinear(v)
//@ ensures [C19] nodata(0.0, v) ==> color(out) == black()
//@ ensures [C19] !nodata(0.0, v) ==> color(out) == gray(floor(255 * rel(0.0, 409.5, v)))

//@ lemma palette_gray_wide(v float64)
//@ floats real
//@ split
//@ run out := vis.GraymapLinearWide(v)
//@ ensures [C19] nodata(0.0, v) ==> color(out) == black()
//@ ensures [C19] !nodata(0.0, v) ==> color(out) == gray(floor(255 * rel(0.0, 4095.0, v)))

//@ lemma palette_velocity(v float64)
//@ floats real
//@ expand vis.Log
//@ split
//@ run out := vis.HeatmapRadialVelocity(v)
//@ ensures [C19] isnan(v) ==> color(out) == black()
//@ ensures [C19] !isnan(v) && math.abs(v) <= 1.0 ==> color(out) == side(v, 255, 204)
//@ ensures [C19] !isnan(v) && math.abs(v) > 1.0 ==> color(out) == side(v, speed(math.log(math.abs(v)), math.log(31.5)), 0)
