//go:build verif

package radolan

// Contracts of data.go: choice of the encoding, raster allocation, layers.

//@ pure grid_ok(c) = 0 <= c.Px && c.Px <= 16384 && 0 <= c.Py && c.Py <= 16384 && c.Dx == c.Px

//@ pure enc_rl(c) = c.level != nil
//@ pure enc_le(c) = c.level == nil && c.dataLength == 2 * (c.Px * c.Py)
//@ pure enc_sb(c) = c.level == nil && c.dataLength == c.Px * c.Py && c.dataLength != 2 * (c.Px * c.Py)

//@ func (*radolan.Composite).parseData(c *radolan.Composite, reader *bufio.Reader) (err error)
//@ requires c != nil && reader != nil
//@ requires grid_ok(c)
//@ modifies c.PlainData, pos(reader)
//@ invariant forall y :: 0 <= y && y < $n ==> len(c.PlainData[y]) == c.Px && freshin(c.PlainData[y])
//@ invariant forall y, z :: 0 <= y && y < z && z < $n ==> ref(c.PlainData[y]) != ref(c.PlainData[z])
//@ invariant with (l [][]float32) forall y :: 0 <= y && y < $n ==> len(l[y]) == c.Px && freshin(l[y])
//@ invariant with (l [][]float32) forall y, z :: 0 <= y && y < z && z < $n ==> ref(l[y]) != ref(l[z])
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C08] c.Px == 0 || c.Py == 0 ==> err != nil
//@ ensures [C08,C10] err == nil ==> fresh(c.PlainData) && len(c.PlainData) == c.Py
//@ ensures [C08,C10] err == nil ==> forall y :: 0 <= y && y < c.Py ==> len(c.PlainData[y]) == c.Px && fresh(c.PlainData[y])
//@ ensures [C08] err == nil ==> forall y, z :: 0 <= y && y < z && z < c.Py ==> ref(c.PlainData[y]) != ref(c.PlainData[z])
//@ ensures [C07,C08,C09] enc_rl(c) && c.Px > 0 && c.Py > 0 ==> (err == nil <==> !rl_fail(stream(reader), old(pos(reader)), c.Py, c.Px))
//@ ensures [C08,C09] enc_le(c) && c.Px > 0 && c.Py > 0 ==> (err == nil <==> old(pos(reader)) + 2*(c.Px*c.Py) <= len(stream(reader)))
//@ ensures [C08,C09] enc_sb(c) && c.Px > 0 && c.Py > 0 ==> (err == nil <==> old(pos(reader)) + c.Px*c.Py <= len(stream(reader)))
//@ ensures [C09] !enc_rl(c) && !enc_le(c) && !enc_sb(c) ==> err != nil
//@ ensures [C07,C08,C09] err == nil && enc_rl(c) ==> forall k, x :: 0 <= k && k < c.Py && 0 <= x && x < c.Px
//@   ==> c.PlainData[k][x] == rl_cell(c, stream(reader), old(pos(reader)), k, x)
//@ ensures [C05,C08,C09] err == nil && enc_le(c) ==> forall k, x :: 0 <= k && k < c.Py && 0 <= x && x < c.Px
//@   ==> c.PlainData[c.Py-1-k][x] == le_cell(c, stream(reader), old(pos(reader)), k, x)
//@ ensures [C06,C08,C09] err == nil && enc_sb(c) ==> forall k, x :: 0 <= k && k < c.Py && 0 <= x && x < c.Px
//@   ==> c.PlainData[c.Py-1-k][x] == sb_cell(c, stream(reader), old(pos(reader)), k, x)

//@ pure layered(c) = c.Py % c.Dy == 0

//@ func (*radolan.Composite).arrangeData(c *radolan.Composite) ()
//@ requires c != nil && 1 <= c.Dy && c.Dy <= c.Py && c.Py <= 16384
//@ requires len(c.PlainData) == c.Py
//@ modifies c.DataZ, c.Data, c.Dz
//@ invariant forall z :: 0 <= z && z < $n ==> len(c.DataZ[z]) == c.Dy && ref(c.DataZ[z]) == ref(c.PlainData) && off(c.DataZ[z]) == off(c.PlainData) + c.Dy*z
//@ invariant with (l [][][]float32) forall z :: 0 <= z && z < $n ==> len(l[z]) == c.Dy && ref(l[z]) == ref(c.PlainData) && off(l[z]) == off(c.PlainData) + c.Dy*z
//@ ensures [C10] layered(c) ==> c.Dz == c.Py / c.Dy && len(c.DataZ) == c.Dz
//@ ensures [C10] !layered(c) ==> c.Dz == 1 && len(c.DataZ) == 1
//@ ensures [C10] forall z :: 0 <= z && z < c.Dz ==> len(c.DataZ[z]) == c.Dy
//@ ensures [C10] layered(c) ==> forall z, y :: 0 <= z && z < c.Dz && 0 <= y && y < c.Dy ==> c.DataZ[z][y] == c.PlainData[c.Dy*z + y]
//@ ensures [C10] !layered(c) ==> forall y :: 0 <= y && y < c.Dy ==> c.DataZ[0][y] == c.PlainData[c.Py - c.Dy + y]
//@ ensures [C10] c.Dz >= 1 && len(c.Data) == c.Dy && ref(c.Data) == ref(c.DataZ[0]) && off(c.Data) == off(c.DataZ[0])

// what the read fails for after a good header: the data section
//@ pure by_data(h, H) = num(h, "BY") - len(H)
//@ pure cells(h, H) = dim_x(h, H[0:2]) * plain_y(h, H[0:2])
//@ pure data_ok(S, P, h, H) = has_field(h, "LV") ? !rl_fail(S, P, plain_y(h, H[0:2]), dim_x(h, H[0:2]))
//@   : by_data(h, H) == 2 * cells(h, H) ? P + 2 * cells(h, H) <= len(S)
//@   : by_data(h, H) == cells(h, H) && P + cells(h, H) <= len(S)
