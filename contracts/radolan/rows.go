//go:build verif

package radolan

// Contracts of the row readers and of the raster parsers: littleendian.go, singlebyte.go,
// runlength.go. A byte stream S has len(S) bytes sbyte(S, 0..); pos(rd) counts the bytes
// that were consumed from the reader.

// ---------------------------------------------------------------- specification functions

//@ pure rows_ok(c) = len(c.PlainData) >= 0 && c.Dx >= 0 && c.Dx <= 16384 && len(c.PlainData) <= 16384
//@   && (forall y :: 0 <= y && y < len(c.PlainData) ==> len(c.PlainData[y]) == c.Dx)
//@   && (forall y, z :: 0 <= y && y < z && z < len(c.PlainData) ==> ref(c.PlainData[y]) != ref(c.PlainData[z]))

//@ pure le_cell(c, S, P, k, x) = le_value(c, sbyte(S, P + 2*c.Dx*k + 2*x), sbyte(S, P + 2*c.Dx*k + 2*x + 1))
//@ pure sb_cell(c, S, P, k, x) = sb_value(c, sbyte(S, P + c.Dx*k + x))

// ---------------------------------------------------------------- littleendian.go

//@ func (*radolan.Composite).readLineLittleEndian(c *radolan.Composite, rd *bufio.Reader) (line []uint8, err error)
//@ requires c != nil && rd != nil
//@ requires 0 <= c.Dx && c.Dx <= 16384
//@ modifies pos(rd)
//@ invariant with (e error) e == nil
//@ invariant pos(rd) == entry(pos(rd)) + $n && ($n == 0 || pos(rd) <= len(stream(rd)))
//@ invariant with (b []byte) forall i :: 0 <= i && i < $n && i < len(b) ==> b[i] == sbyte(stream(rd), entry(pos(rd)) + i)
//@ invariant with (k int) 0 <= k && pos(rd) == entry(pos(rd)) + k && (k == 0 || pos(rd) <= len(stream(rd)))
//@ invariant with (b []byte, k int) k <= len(b) && forall i :: 0 <= i && i < k ==> b[i] == sbyte(stream(rd), entry(pos(rd)) + i)
//@ invariant with (e error, b []byte, k int) e != nil ==> k < len(b) && pos(rd) == len(stream(rd))
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C08] err == nil ==> fresh(line) && len(line) == 2*c.Dx
//@ ensures [C08] err == nil <==> old(pos(rd)) + 2*c.Dx <= len(stream(rd))
//@ ensures [C08] err == nil ==> pos(rd) == old(pos(rd)) + 2*c.Dx
//@ ensures [C05,C08] err == nil ==> forall i :: 0 <= i && i < 2*c.Dx ==> line[i] == sbyte(stream(rd), old(pos(rd)) + i)

//@ func (*radolan.Composite).parseLittleEndian(c *radolan.Composite, reader *bufio.Reader) (err error)
//@ requires c != nil && reader != nil
//@ requires rows_ok(c)
//@ modifies c.PlainData[*][*], pos(reader)
//@ invariant pos(reader) == entry(pos(reader)) + 2*c.Dx*$n
//@ invariant pos(reader) <= len(stream(reader)) || $n == 0
//@ invariant forall k, x :: 0 <= k && k < $n && 0 <= x && x < c.Dx ==> c.PlainData[len(c.PlainData)-1-k][x] == le_cell(c, stream(reader), entry(pos(reader)), k, x)
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C08] err == nil <==> len(c.PlainData) == 0 || old(pos(reader)) + 2*c.Dx*len(c.PlainData) <= len(stream(reader))
//@ ensures [C05,C08] err == nil ==> forall k, x :: 0 <= k && k < len(c.PlainData) && 0 <= x && x < c.Dx
//@   ==> c.PlainData[len(c.PlainData)-1-k][x] == le_cell(c, stream(reader), old(pos(reader)), k, x)

// ---------------------------------------------------------------- singlebyte.go

//@ func (*radolan.Composite).readLineSingleByte(c *radolan.Composite, rd *bufio.Reader) (line []uint8, err error)
//@ requires c != nil && rd != nil
//@ requires 0 <= c.Dx && c.Dx <= 16384
//@ modifies pos(rd)
//@ invariant with (e error) e == nil
//@ invariant pos(rd) == entry(pos(rd)) + $n && ($n == 0 || pos(rd) <= len(stream(rd)))
//@ invariant with (b []byte) forall i :: 0 <= i && i < $n && i < len(b) ==> b[i] == sbyte(stream(rd), entry(pos(rd)) + i)
//@ invariant with (k int) 0 <= k && pos(rd) == entry(pos(rd)) + k && (k == 0 || pos(rd) <= len(stream(rd)))
//@ invariant with (b []byte, k int) k <= len(b) && forall i :: 0 <= i && i < k ==> b[i] == sbyte(stream(rd), entry(pos(rd)) + i)
//@ invariant with (e error, b []byte, k int) e != nil ==> k < len(b) && pos(rd) == len(stream(rd))
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C08] err == nil ==> fresh(line) && len(line) == c.Dx
//@ ensures [C08] err == nil <==> old(pos(rd)) + c.Dx <= len(stream(rd))
//@ ensures [C08] err == nil ==> pos(rd) == old(pos(rd)) + c.Dx
//@ ensures [C06,C08] err == nil ==> forall i :: 0 <= i && i < c.Dx ==> line[i] == sbyte(stream(rd), old(pos(rd)) + i)

//@ func (*radolan.Composite).parseSingleByte(c *radolan.Composite, reader *bufio.Reader) (err error)
//@ requires c != nil && reader != nil
//@ requires rows_ok(c)
//@ modifies c.PlainData[*][*], pos(reader)
//@ invariant pos(reader) == entry(pos(reader)) + c.Dx*$n
//@ invariant pos(reader) <= len(stream(reader)) || $n == 0
//@ invariant forall k, x :: 0 <= k && k < $n && 0 <= x && x < c.Dx ==> c.PlainData[len(c.PlainData)-1-k][x] == sb_cell(c, stream(reader), entry(pos(reader)), k, x)
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C08] err == nil <==> len(c.PlainData) == 0 || old(pos(reader)) + c.Dx*len(c.PlainData) <= len(stream(reader))
//@ ensures [C06,C08] err == nil ==> forall k, x :: 0 <= k && k < len(c.PlainData) && 0 <= x && x < c.Dx
//@   ==> c.PlainData[len(c.PlainData)-1-k][x] == sb_cell(c, stream(reader), old(pos(reader)), k, x)

// ---------------------------------------------------------------- runlength.go

// A row is the string s of its bytes without the newline. Byte 0 is the line number; then an
// offset (bytes >= 16, each advancing by value-16, continued while the byte is 255); then run
// bytes: high nibble times the level of the low nibble.

// rl_off(s, k): byte k belongs to the offset; rl_pos(s, k): cells passed before byte k
//@ rec rl_off(s string, k int) bool = k <= 1 ? true : rl_off(s, k-1) && s[k-1] == 255
//@ rec rl_pos(s string, k int) int = k <= 1 ? 0 : rl_pos(s, k-1) + (rl_off(s, k-1) ? s[k-1] - 16 : s[k-1] / 16)
// rl_nib(s, k, x): level index of cell x after the bytes before k, 0 if the cell is not covered
//@ rec rl_nib(s string, k int, x int) int ground (s, k)
//@   = k <= 1 ? 0 : (!rl_off(s, k-1) && rl_pos(s, k-1) <= x && x < rl_pos(s, k-1) + s[k-1] / 16 ? s[k-1] % 16 : rl_nib(s, k-1, x))
// rl_bad(s, k, L): some byte from k on is no valid offset or exceeds a row of L cells
//@ rec rl_bad(s string, k int, L int) bool
//@   = k >= len(s) ? false : (k >= 1 && (rl_off(s, k) ? s[k] < 16 : s[k] >= 16 && rl_pos(s, k) + s[k] / 16 > L)) || rl_bad(s, k+1, L)

//@ func (*radolan.Composite).decodeRunlength(c *radolan.Composite, dst []float32, line []uint8) (err error)
//@ requires c != nil
//@ requires ref(dst) != ref(c.level)
//@ modifies dst[*]
//@ invariant outer with (p int) 0 <= p && p <= 255 * $n
//@ invariant outer with (p int) p == rl_pos(bytes(line), $n)
//@ invariant outer with (q bool) q == rl_off(bytes(line), $n)
//@ invariant outer forall x :: 0 <= x && x < len(dst) ==> dst[x] == rl_value(c, rl_nib(bytes(line), $n, x))
//@ invariant outer rl_bad(bytes(line), 0, len(dst)) == rl_bad(bytes(line), $n, len(dst))
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C07,C08] err == nil <==> !rl_bad(bytes(line), 0, len(dst))
//@ ensures [C07] err == nil ==> forall x :: 0 <= x && x < len(dst) ==> dst[x] == rl_value(c, rl_nib(bytes(line), len(line), x))

//@ func (*radolan.Composite).readLineRunlength(c *radolan.Composite, rd *bufio.Reader) (line []uint8, err error)
//@ requires rd != nil
//@ modifies pos(rd)
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C07,C08] err == nil <==> sfind(stream(rd), old(pos(rd)), 10) < len(stream(rd))
//@ ensures [C07,C08] err == nil ==> pos(rd) == sfind(stream(rd), old(pos(rd)), 10) + 1
//@ ensures [C07,C08] err == nil ==> bytes(line) == sstr(stream(rd), old(pos(rd)), sfind(stream(rd), old(pos(rd)), 10) - old(pos(rd)))
//@   && len(line) == sfind(stream(rd), old(pos(rd)), 10) - old(pos(rd))
//@ ensures [C07] err == nil ==> fresh(line)

// rl_start(S, p, k): where row k starts; rl_line: its bytes; rl_fail(S, p, h, L): some of the
// next h rows is not terminated by a newline or invalid
//@ rec rl_start(S stream, p int, k int) int = k <= 0 ? p : sfind(S, rl_start(S, p, k-1), 10) + 1
//@ pure rl_line(S, p) = sstr(S, p, sfind(S, p, 10) - p)
//@ rec rl_fail(S stream, p int, h int, L int) bool
//@   = h <= 0 ? false : sfind(S, p, 10) >= len(S) || rl_bad(rl_line(S, p), 0, L) || rl_fail(S, sfind(S, p, 10) + 1, h-1, L)
//@ pure rl_cell(c, S, P, k, x) = rl_value(c, rl_nib(rl_line(S, rl_start(S, P, k)), sfind(S, rl_start(S, P, k), 10) - rl_start(S, P, k), x))

//@ func (*radolan.Composite).parseRunlength(c *radolan.Composite, reader *bufio.Reader) (err error)
//@ requires c != nil && reader != nil
//@ requires rows_ok(c)
//@ requires forall y :: 0 <= y && y < len(c.PlainData) ==> ref(c.PlainData[y]) != ref(c.level)
//@ modifies c.PlainData[*][*], pos(reader)
//@ invariant pos(reader) == rl_start(stream(reader), entry(pos(reader)), $n)
//@ invariant pos(reader) <= len(stream(reader)) || $n == 0
//@ invariant rl_fail(stream(reader), entry(pos(reader)), len(c.PlainData), c.Dx) == rl_fail(stream(reader), pos(reader), len(c.PlainData)-$n, c.Dx)
//@ invariant forall k, x :: 0 <= k && k < $n && 0 <= x && x < c.Dx ==> c.PlainData[k][x] == rl_cell(c, stream(reader), entry(pos(reader)), k, x)
//@ ensures [C02] err != ErrUnknownUnit
//@ ensures [C07,C08] err == nil <==> !rl_fail(stream(reader), old(pos(reader)), len(c.PlainData), c.Dx)
//@ ensures [C07,C08] err == nil ==> forall k, x :: 0 <= k && k < len(c.PlainData) && 0 <= x && x < c.Dx
//@   ==> c.PlainData[k][x] == rl_cell(c, stream(reader), old(pos(reader)), k, x)
