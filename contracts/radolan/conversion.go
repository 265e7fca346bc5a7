//go:build verif

package radolan

// Contracts of conversion.go. Rates are stated over the reals (rounding ignored), the
// conversion between raw values and dBZ bit-precisely.

//@ lemma zr_law(a finite, b finite, d finite32)
//@ floats real
//@ requires rv(a) > 0 && rv(b) > 0
//@ run z := radolan.NewZR(a, b)
//@ run R := radolan.PrecipitationRate(z, d)
//@ run e := radolan.Reflectivity(z, R)
//@ ensures [C12] isfinite(R) && rv(R) > 0 && rpow(10, rv(d) / 10) == rv(a) * rpow(rv(R), rv(b))
//@ ensures [C12] isfinite(e) && rv(e) == rv(d)

//@ lemma zr_inverse(a finite, b finite, r finite)
//@ floats real
//@ requires rv(a) > 0 && rv(b) > 0 && rv(r) > 0
//@ run z := radolan.NewZR(a, b)
//@ run e := radolan.Reflectivity(z, r)
//@ run s := radolan.PrecipitationRate(z, e)
//@ ensures [C12] isfinite(e) && rpow(10, rv(e) / 10) == rv(a) * rpow(rv(r), rv(b))
//@ ensures [C12] isfinite(s) && rv(s) == rv(r)

//@ lemma zr_order(a finite, b finite, d finite32, e finite32)
//@ floats real
//@ requires rv(a) > 0 && rv(b) > 0 && rv(d) < rv(e)
//@ run z := radolan.NewZR(a, b)
//@ run R := radolan.PrecipitationRate(z, d)
//@ run S := radolan.PrecipitationRate(z, e)
//@ ensures [C12] rv(R) < rv(S)

// the published relations
//@ lemma zr_published(d finite32)
//@ floats real
//@ run R1 := radolan.PrecipitationRate(radolan.Aniol80, d)
//@ run R2 := radolan.PrecipitationRate(radolan.Doelling98, d)
//@ run R3 := radolan.PrecipitationRate(radolan.JossWaldvogel70, d)
//@ run R4 := radolan.PrecipitationRate(radolan.MarshallPalmer55, d)
//@ ensures [C12] isfinite(R1) && rv(R1) > 0 && rpow(10, rv(d) / 10) == 256 * rpow(rv(R1), rv(float64(1.42)))
//@ ensures [C12] isfinite(R2) && rv(R2) > 0 && rpow(10, rv(d) / 10) == 316 * rpow(rv(R2), 1.5)
//@ ensures [C12] isfinite(R3) && rv(R3) > 0 && rpow(10, rv(d) / 10) == 300 * rpow(rv(R3), 1.5)
//@ ensures [C12] isfinite(R4) && rv(R4) > 0 && rpow(10, rv(d) / 10) == 200 * rpow(rv(R4), rv(float64(1.6)))

//@ lemma zr_published_inverse(r finite)
//@ floats real
//@ requires rv(r) > 0
//@ run e1 := radolan.Reflectivity(radolan.Aniol80, r)
//@ run e2 := radolan.Reflectivity(radolan.Doelling98, r)
//@ run e3 := radolan.Reflectivity(radolan.JossWaldvogel70, r)
//@ run e4 := radolan.Reflectivity(radolan.MarshallPalmer55, r)
//@ ensures [C12] isfinite(e1) && rpow(10, rv(e1) / 10) == 256 * rpow(rv(r), rv(float64(1.42)))
//@ ensures [C12] isfinite(e2) && rpow(10, rv(e2) / 10) == 316 * rpow(rv(r), 1.5)
//@ ensures [C12] isfinite(e3) && rpow(10, rv(e3) / 10) == 300 * rpow(rv(r), 1.5)
//@ ensures [C12] isfinite(e4) && rpow(10, rv(e4) / 10) == 200 * rpow(rv(r), rv(float64(1.6)))

// raw values: exact in machine arithmetic
//@ lemma dbz_exact(n float32)
//@ floats fp
//@ requires n >= 0.0 && n <= 4095.0 && integral(n)
//@ run d := radolan.toDBZ(n)
//@ run m := radolan.toRVP6(d)
//@ ensures [C12] feq(m, n) && float64(d) == float64(n) / 2.0 - 32.5

//@ lemma dbz_order(x float32, y float32)
//@ floats fp
//@ timeout 60000
//@ requires x <= y
//@ run d := radolan.toDBZ(x)
//@ run e := radolan.toDBZ(y)
//@ ensures [C12] d <= e
