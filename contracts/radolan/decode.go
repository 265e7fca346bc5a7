//go:build verif

package radolan

// Contracts of the value decoders: conversion.go, littleendian.go, singlebyte.go.

// ---------------------------------------------------------------- specification functions

//@ pure scaled(v, prec) = float32(v) * float32(math.pow10(prec))
//@ pure dbz(x) = x / 2.0 - 32.5
//@ pure calibrated(u, x) = u == Unit_dBZ ? dbz(x) : x

//@ pure le_flag_nodata(hi) = (hi / 32) % 2 == 1
//@ pure le_flag_negative(hi) = (hi / 64) % 2 == 1
//@ pure le_magnitude(lo, hi) = lo + 256 * (hi % 16)
//@ pure le_signed(lo, hi) = le_flag_negative(hi) ? -le_magnitude(lo, hi) : le_magnitude(lo, hi)
//@ pure le_value(c, lo, hi) = le_flag_nodata(hi) ? NaN32 : calibrated(c.DataUnit, scaled(le_signed(lo, hi), c.precision))
//@ pure sb_value(c, b) = b == 250 ? NaN32 : calibrated(c.DataUnit, scaled(b, c.precision))

// ---------------------------------------------------------------- conversion.go

//@ func radolan.IsNaN(f float32) (is bool)
//@ public
//@ extra C12
//@ ensures [C12] is == isnan(f)

//@ func radolan.toDBZ(rvp6 float32) (dBZ float32)
//@ ensures [C05,C06,C12] dBZ := dbz(rvp6)

//@ func radolan.toRVP6(dBZ float32) (r float32)
//@ ensures [C12] r := (dBZ + 32.5) * 2.0

//@ func (*radolan.Composite).rvp6Raw(c *radolan.Composite, value int) (r float32)
//@ requires c != nil
//@ ensures [C05,C06,C12] r := scaled(value, c.precision)

// ---------------------------------------------------------------- littleendian.go

//@ func (*radolan.Composite).rvp6LittleEndian(c *radolan.Composite, tuple [2]uint8) (r float32)
//@ requires c != nil
//@ ensures [C05] r := le_value(c, tuple[0], tuple[1])

//@ func (*radolan.Composite).decodeLittleEndian(c *radolan.Composite, dst []float32, line []uint8) (err error)
//@ requires c != nil
//@ modifies dst[*]
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C05,C08] err == nil <==> len(line) == 2 * len(dst)
//@ ensures [C05,C08] err == nil ==> forall i :: 0 <= i && i < len(dst) ==> dst[i] == le_value(c, line[2*i], line[2*i+1])
//@ ensures [C08] err != nil ==> forall i :: 0 <= i && i < len(dst) ==> dst[i] == old(dst[i])

// ---------------------------------------------------------------- singlebyte.go

//@ func (*radolan.Composite).rvp6SingleByte(c *radolan.Composite, value uint8) (r float32)
//@ requires c != nil
//@ ensures [C06] r := sb_value(c, value)

//@ func (*radolan.Composite).decodeSingleByte(c *radolan.Composite, dst []float32, line []uint8) (err error)
//@ requires c != nil
//@ modifies dst[*]
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C06,C08] err == nil <==> len(line) == len(dst)
//@ ensures [C06,C08] err == nil ==> forall i :: 0 <= i && i < len(dst) ==> dst[i] == sb_value(c, line[i])
//@ ensures [C08] err != nil ==> forall i :: 0 <= i && i < len(dst) ==> dst[i] == old(dst[i])

// ---------------------------------------------------------------- runlength.go

//@ pure rl_value(c, b) = b >= 1 && b <= len(c.level) ? c.level[b-1] : NaN32

//@ func (*radolan.Composite).rvp6Runlength(c *radolan.Composite, value uint8) (r float32)
//@ requires c != nil
//@ ensures [C07] r := rl_value(c, value)
