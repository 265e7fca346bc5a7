//go:build verif

package radolan

// Contracts of projection.go, projection_sphere.go and projection_wgs84.go.

// ---------------------------------------------------------------- supported grids

// doubled(x, y, A, B): (x, y) is (A, B) with both doubled any number of times
//@ rec doubled(x int, y int, A int, B int) bool ground (x, y) depth 4
//@   = (x == A && y == B) || (x != 0 && y != 0 && x % 2 == 0 && y % 2 == 0 && doubled(x/2, y/2, A, B))

// the supported grids, halved as often as possible: 900x900, 920x920, 900x1100, 1100x1200, 1400x1500
//@ pure grid_national(x, y) = doubled(x, y, 225, 225)
//@ pure grid_picture(x, y) = doubled(x, y, 115, 115)
//@ pure grid_extended(x, y) = doubled(x, y, 225, 275)
//@ pure grid_de1200(x, y) = doubled(x, y, 275, 300)
//@ pure grid_europe(x, y) = doubled(x, y, 350, 375)
//@ pure projectable(x, y, format) = format >= 5 ? grid_de1200(x, y)
//@   : grid_national(x, y) || grid_picture(x, y) || grid_extended(x, y) || grid_de1200(x, y) || grid_europe(x, y)

//@ func radolan.minRes(dx int, dy int) (rdx int, rdy int)
//@ extra C13, C14
//@ invariant with (a, b int) forall A, B :: (A % 2 != 0 || B % 2 != 0) ==> doubled(a, b, A, B) == doubled(dx, dy, A, B)
//@ ensures [C13] forall A, B :: (A % 2 != 0 || B % 2 != 0) ==> doubled(dx, dy, A, B) == (rdx == A && rdy == B)

//@ pure fresh_projection(c) = !c.HasProjection && c.proj_wgs84 == nil

// what Project depends on is as the calibration left it
//@ pure projection_set(c) = ascalibrated(c.HasProjection) == c.HasProjection && ascalibrated(c.Rx) == c.Rx && ascalibrated(c.Ry) == c.Ry
//@   && ascalibrated(c.offx) == c.offx && ascalibrated(c.offy) == c.offy && ascalibrated(c.proj_wgs84) == c.proj_wgs84
//@   && ascalibrated(c.Dx) == c.Dx && ascalibrated(c.Dy) == c.Dy && ascalibrated(c.Format) == c.Format

//@ func (*radolan.Composite).calibrateProjection(c *radolan.Composite) ()
//@ requires c != nil && fresh_projection(c)
//@ modifies c.Rx, c.Ry, c.offx, c.offy, c.HasProjection, c.proj_wgs84
//@ ensures [C13] c.HasProjection == projectable(c.Dx, c.Dy, c.Format)
//@ ghost projection_set(c)
//@ ensures [C13] !c.HasProjection && (feq(old(c.Rx), 0.0) || feq(old(c.Ry), 0.0)) ==> isnan(c.Rx) && isnan(c.Ry)
//@ ensures [C04,C13] !c.HasProjection && !feq(old(c.Rx), 0.0) && !feq(old(c.Ry), 0.0) ==> c.Rx == old(c.Rx) && c.Ry == old(c.Ry)

//@ func (*radolan.Composite).Project(c *radolan.Composite, north float64, east float64) (x float64, y float64)
//@ public
//@ requires c != nil
//@ ensures [C13] !c.HasProjection ==> isnan(x) && isnan(y)

// ---------------------------------------------------------------- coordinates (C14)

// degrees to radians
//@ pure deg(a) = a * 0.01745329251994329576923690768488612713

// polar stereographic projection, sphere of radius 6370.04 km, true at 60N, central meridian 10E
//@ pure sph_r(n) = 6370.04 * ((1 + rsin(deg(60))) / (1 + rsin(deg(n)))) * rcos(deg(n))
//@ pure sph_x(n, e) = sph_r(n) * rsin(deg(e) - deg(10))
//@ pure sph_y(n, e) = sph_r(n) * rcos(deg(e) - deg(10))

// the same on the WGS84 ellipsoid (semi-axes 6378137 m and 6356752.3142451802 m)
//@ pure ecc() = 0.08181919084262032
//@ pure iso(n) = rtan(0.78539816339744830961566084581987572 - deg(n) / 2) / rpow((1 - ecc() * rsin(deg(n))) / (1 + ecc() * rsin(deg(n))), ecc() / 2)
//@ pure ell_r(n) = 11862667.042661695 / 1000 * iso(n)
//@ pure ell_x(n, e) = ell_r(n) * rsin(deg(e) - deg(10))
//@ pure ell_y(n, e) = ell_r(n) * rcos(deg(e) - deg(10))

//@ pure uncalibrated(c, dx, dy) = c != nil && fresh_projection(c) && c.Dx == dx && c.Dy == dy

// a grid twice as fine is the same grid
//@ lemma doubled_twice(x int, y int, A int, B int)
//@ requires 0 < x && 0 < y && doubled(x, y, A, B)
//@ ensures [C14] doubled(2 * x, 2 * y, A, B)

// the scale and the eccentricity of the ellipsoid are those of the semi-axes, true at 60N
//@ lemma wgs84_constants()
//@ floats real
//@ ensures [C14] abs(ecc() * ecc() - (1 - (6356752.3142451802 / 6378137.0) * (6356752.3142451802 / 6378137.0))) <= 0.000000000001
//@ ensures [C14] abs(11862667.042661695 * iso(60) / (6378137 * rcos(deg(60)) * rpow(1 - ecc() * ecc() * rsin(deg(60)) * rsin(deg(60)), -0.5)) - 1) <= 0.0000000001

//@ lemma grid_national(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format < 5 && grid_national(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 54.5877, 2.0715)
//@ run x1, y1 := (*radolan.Composite).Project(c, 47.0705, 14.6209)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 900) * 1000 <= 900
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 900) * 1000 <= 900
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), sph_x(rv(n), rv(e)) - sph_x(54.5877, 2.0715))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), sph_y(rv(n), rv(e)) - sph_y(54.5877, 2.0715))

//@ lemma half_national(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f < 5 && g < 5 && grid_national(dx, dy) && grid_national(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)

//@ lemma grid_picture(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format < 5 && grid_picture(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 54.66218275, 1.900684377)
//@ run x1, y1 := (*radolan.Composite).Project(c, 46.98044293, 14.73300934)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 920) * 1000 <= 920
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 920) * 1000 <= 920
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), sph_x(rv(n), rv(e)) - sph_x(54.66218275, 1.900684377))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), sph_y(rv(n), rv(e)) - sph_y(54.66218275, 1.900684377))

//@ lemma half_picture(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f < 5 && g < 5 && grid_picture(dx, dy) && grid_picture(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)

//@ lemma grid_extended(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format < 5 && grid_extended(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 55.5482, 3.0889)
//@ run x1, y1 := (*radolan.Composite).Project(c, 46.1827, 15.4801)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 900) * 1000 <= 900
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 1100) * 1000 <= 1100
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), sph_x(rv(n), rv(e)) - sph_x(55.5482, 3.0889))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), sph_y(rv(n), rv(e)) - sph_y(55.5482, 3.0889))

//@ lemma half_extended(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f < 5 && g < 5 && grid_extended(dx, dy) && grid_extended(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)

//@ lemma grid_de1200(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format < 5 && grid_de1200(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 55.86584289, 1.435612143)
//@ run x1, y1 := (*radolan.Composite).Project(c, 45.68358331, 16.60186543)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 1100) * 1000 <= 1100
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 1200) * 1000 <= 1200
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), sph_x(rv(n), rv(e)) - sph_x(55.86584289, 1.435612143))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), sph_y(rv(n), rv(e)) - sph_y(55.86584289, 1.435612143))

//@ lemma half_de1200(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f < 5 && g < 5 && grid_de1200(dx, dy) && grid_de1200(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)

//@ lemma grid_europe(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format < 5 && grid_europe(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 56.5423, -0.8654)
//@ run x1, y1 := (*radolan.Composite).Project(c, 43.8736, 18.2536)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 1400) * 1000 <= 1400
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 1500) * 1000 <= 1500
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), sph_x(rv(n), rv(e)) - sph_x(56.5423, 0 - 0.8654))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), sph_y(rv(n), rv(e)) - sph_y(56.5423, 0 - 0.8654))

//@ lemma half_europe(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f < 5 && g < 5 && grid_europe(dx, dy) && grid_europe(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)

//@ lemma grid_de1200_wgs84(c *radolan.Composite, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection
//@ requires uncalibrated(c, dx, dy) && c.Format >= 5 && grid_de1200(dx, dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run (*radolan.Composite).calibrateProjection(c)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run x0, y0 := (*radolan.Composite).Project(c, 55.86208711, 1.463301510)
//@ run x1, y1 := (*radolan.Composite).Project(c, 45.68460578, 16.58086935)
//@ ensures [C14] isfinite(x0) && isfinite(y0) && rv(x0) == 0 && rv(y0) == 0
//@ ensures [C14] isfinite(x1) && isfinite(y1) && rv(x1) == dx && rv(y1) == dy
//@ ensures [C14] isfinite(c.Rx) && abs(rv(c.Rx) * dx - 1100) * 1000 <= 1100
//@ ensures [C14] isfinite(c.Ry) && abs(rv(c.Ry) * dy - 1200) * 1000 <= 1200
//@ ensures [C14] isfinite(x) && near(rv(x) * rv(c.Rx), ell_x(rv(n), rv(e)) - ell_x(55.86208711, 1.463301510))
//@ ensures [C14] isfinite(y) && near(rv(y) * rv(c.Ry), ell_y(rv(n), rv(e)) - ell_y(55.86208711, 1.463301510))

//@ lemma half_de1200_wgs84(p string, q string, f int, g int, dx int, dy int, n finite, e finite)
//@ floats real
//@ split
//@ expand (*radolan.Composite).Project, (*radolan.Composite).calibrateProjection, radolan.NewDummy
//@ requires f >= 5 && g >= 5 && grid_de1200(dx, dy) && grid_de1200(2 * dx, 2 * dy) && 0 < dx && dx < 1000000000000 && 0 < dy && dy < 1000000000000
//@ requires rv(n) > -90 && rv(n) <= 90
//@ run c := radolan.NewDummy(p, f, dx, dy)
//@ run d := radolan.NewDummy(q, g, 2 * dx, 2 * dy)
//@ run x, y := (*radolan.Composite).Project(c, n, e)
//@ run u, v := (*radolan.Composite).Project(d, n, e)
//@ ensures [C14] isfinite(c.Rx) && isfinite(d.Rx) && isfinite(c.Ry) && isfinite(d.Ry) && rv(c.Rx) == 2 * rv(d.Rx) && rv(c.Ry) == 2 * rv(d.Ry)
//@ ensures [C14] isfinite(x) && isfinite(u) && isfinite(y) && isfinite(v) && rv(u) == 2 * rv(x) && rv(v) == 2 * rv(y)
