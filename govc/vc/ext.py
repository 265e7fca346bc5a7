"""Trusted contracts of the standard library functions the verified code calls.

Everything in this file is an ASSUMPTION about code outside the repository; each entry
that a run actually uses is listed in the evidence. Byte streams are finite sequences
(length + contents) with a read position per reader; reading past the end is an error."""
import z3
from . import smt
from .smt import (INT, BOOL, STR, STREAM, SLICE, I, ite, s_ref, s_off, s_len, s_cap, s_mk, str_len, str_at, MAXLEN, fresh)
from .state import *
from .ir import Unsupported

AND, OR, NOT, IMP, FA = z3.And, z3.Or, z3.Not, z3.Implies, smt.FA
ARR = z3.ArraySort(INT, INT)
F = z3.Function

COLORD = z3.Datatype('Color')
COLORD.declare('mkC', ('cr', INT), ('cg', INT), ('cb', INT), ('ca', INT))
COLORD = COLORD.create()
mkC = COLORD.mkC
PIX = z3.ArraySort(INT, z3.ArraySort(INT, COLORD))

# ghost state: region name -> sort (indexed by object reference)
GHOST = {
    'pos': z3.ArraySort(INT, INT),          # bufio.Reader: bytes consumed
    'ver': z3.ArraySort(INT, INT),          # any io.Reader: version of its remaining content
    'taridx': z3.ArraySort(INT, INT),       # tar.Reader: entries returned so far
    'pix': z3.ArraySort(INT, PIX),          # image.RGBA: pixels
}
INLINE_PKGS = {'encoding/binary'}

st_len = F('st_len', STREAM, INT)
st_arr = F('st_arr', STREAM, ARR)
content = F('content', INT, INT, STREAM)        # what an io.Reader will still deliver
rd_stream = F('rd_stream', INT, STREAM)         # the stream a bufio.Reader was created on
sfind = F('sfind', STREAM, INT, INT, INT)       # first position >= p holding the byte, st_len if none
sstr = F('sstr', STREAM, INT, INT, STR)         # n bytes from position p as a string
bz = F('bunzip2', STREAM, STREAM)
tar_src = F('tar_src', INT, STREAM)
tar_n = F('tar_n', STREAM, INT)
tar_ok = F('tar_ok', STREAM, BOOL)
tar_ver, tar_verk = F('tar_ver', INT, INT, INT), F('tar_verk', INT, INT)    # version of the reader at an entry
tar_entry = F('tar_entry', STREAM, INT, STREAM)
scan_ok = F('scan_ok', STR, STR, BOOL)
scan_int = F('scan_int', STR, INT, STR, INT)
TIME = smt.opaque('time.Time')
tparse_ok = F('tparse_ok', STR, STR, BOOL)
tparse = F('tparse', STR, STR, TIME)
tadd = F('tadd', TIME, INT, TIME)
inst = F('inst', TIME, INT)
str_bytes = F('str_bytes', ARR, INT, INT, STR)
isupper = F('isupper', INT, BOOL)
img_w = F('img_w', INT, INT)
img_h = F('img_h', INT, INT)

_H = {}


def ext(*names):
    def d(f):
        for n in names:
            _H[n] = f
        return f
    return d


def lookup(name):
    h = _H.get(name)
    if h is None and name.startswith(GENERIC) and '[' in name:
        h = _H.get(name[:name.index('[')])
    return h


GENERIC = ('slices.', 'cmp.')      # generic library functions: instances share one model


EXTGLOB = {'io.EOF': 2, 'io.ErrUnexpectedEOF': 3, 'io.ErrNoProgress': 4, 'bufio.ErrBufferFull': 5}
RESERVED = 100


def global_value(ex, st, name):
    if name in EXTGLOB:
        return VIface(I(EXTGLOB[name]))
    return None


def newerr(ex, st):
    """an error value made by this very call: different from every error that exists so far"""
    return VIface(ex.alloc(st))


def anyerr(ex, st, notone=()):
    """a failing library call: a new error value, or one of the library's well-known ones
    (io.EOF and the like), which the code could compare it with"""
    e = fresh('err', INT)
    r = ex.alloc(st)
    st.assume(OR(e == r, *[e == v for n, v in sorted(EXTGLOB.items()) if n not in notone]))
    return VIface(e)


NIL = VIface(I(0))


def ref_of(ex, v):
    """reference of a reader argument"""
    if isinstance(v, VIface):
        return v.val if isinstance(v.val, z3.ExprRef) else v.term
    return v


def gget(ex, st, g, r):
    return ex.sel(ex.reg(st, ('G', g)), r)


def gset(ex, st, g, r, v):
    st.heap[('G', g)] = ex.upd(ex.reg(st, ('G', g)), r, v)


def bump(ex, st, r):
    gset(ex, st, 'ver', r, fresh('ver', INT))


def split(ex, st, cond):
    """two states for a condition"""
    c = z3.simplify(cond)
    if z3.is_true(c):
        return st, None
    if z3.is_false(c):
        return None, st
    s2 = st.copy()
    st.assume(c, 'b')
    s2.assume(z3.simplify(NOT(c)), 'b')
    return st, s2


# ---------------------------------------------------------------- math

def _fm1(name):
    def f(ex, st, args, ins, c):
        ex.fm.ctx = (ex, st)
        try:
            return [(st, [ex.fm.math(name, *args)])]
        finally:
            ex.fm.ctx = None
    return f


for _n in ('Sin', 'Cos', 'Tan', 'Log', 'Log10', 'Log2', 'Exp', 'Sqrt', 'Abs', 'Floor', 'Ceil', 'Trunc', 'Round', 'Pow', 'Mod', 'Max', 'Min', 'Atan', 'Atan2', 'Hypot', 'Exp2', 'Log1p', 'Cbrt', 'Asin', 'Acos'):
    _H['math.' + _n] = _fm1(_n.lower())
    _H['math.' + _n[0].lower() + _n[1:]] = _fm1(_n.lower())


@ext('math.Sincos')
def _(ex, st, args, ins, c):
    ex.fm.ctx = (ex, st)
    try:
        return [(st, [ex.fm.math('sin', *args), ex.fm.math('cos', *args)])]
    finally:
        ex.fm.ctx = None


@ext('math.NaN')
def _(ex, st, args, ins, c):
    return [(st, [ex.fm.nan(64)])]


@ext('math.Inf')
def _(ex, st, args, ins, c):
    x = z3.simplify(args[0])
    if z3.is_int_value(x):
        return [(st, [ex.fm.inf(64, 1 if x.as_long() >= 0 else -1)])]
    return [(st, [ite(x >= 0, ex.fm.inf(64, 1), ex.fm.inf(64, -1))])]


@ext('math.IsNaN')
def _(ex, st, args, ins, c):
    return [(st, [ex.fm.isnan(64, args[0])])]


@ext('math.IsInf')
def _(ex, st, args, ins, c):
    p, m = ex.fm.cmp('==', 64, args[0], ex.fm.inf(64, 1)), ex.fm.cmp('==', 64, args[0], ex.fm.inf(64, -1))
    s = args[1]
    return [(st, [z3.simplify(OR(AND(s >= 0, p), AND(s <= 0, m)))])]


@ext('math.Pow10')
def _(ex, st, args, ins, c):
    return [(st, [ex.fm.pow10(args[0])])]


# ---------------------------------------------------------------- errors, formatting, scanning

@ext('fmt.Errorf', 'errors.New')
def _(ex, st, args, ins, c):
    return [(st, [newerr(ex, st)])]


@ext('invoke:Error', 'invoke:String', 'fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln')
def _(ex, st, args, ins, c):
    return [(st, [ex.symval(st, 'string', 'str')])]


def verbs(fmt):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            i += 1
            w = ''
            while fmt[i].isdigit():
                w += fmt[i]
                i += 1
            if fmt[i] == '%':
                i += 1
                continue
            out.append((fmt[i], int(w) if w else None))
        i += 1
    return out


def scan_float(ex, bits):
    return F('scan_f%d' % bits, STR, INT, STR, ex.fm.sort(bits))


@ext('fmt.Sscanf')
def _(ex, st, args, ins, c):
    s, f, va = args
    b = smt.lit_of(f)
    if b is None or not isinstance(va, CellSlice):
        raise Unsupported('fmt.Sscanf with a computed format')
    vs = verbs(b.decode('latin1'))
    ptrs = [ex.cellget(st, va.cell, (I(k),)) for k in range(va.lo, va.hi)]
    if len(vs) != len(ptrs):
        # never succeeds ("too few operands" / "too many operands")
        raise Unsupported('fmt.Sscanf: operand count does not match the format')
    good, bad = split(ex, st, scan_ok(f, s))
    out = []
    for s1, ok in ((good, True), (bad, False)):
        if s1 is None:
            continue
        for k, p in enumerate(ptrs):
            t = ex.T.norm(ex.T.u(p.dt)['e'])
            kd = ex.kind(t)
            if ok:
                if kd == 'int' and vs[k][0] in 'dv':
                    v = scan_int(f, I(k), s)
                    tf = ex.typefact(v, t, None)
                    s1.assume(tf)
                    ex.setbnd(v, t)
                elif kd == 'float' and vs[k][0] in 'fgev':
                    v = scan_float(ex, ex.fbits(t))(f, I(k), s)
                else:
                    v = ex.symval(s1, t, 'scanned')
            else:
                v = ex.symval(s1, t, 'unscanned')
            ex.store(s1, p.val, v, t, ins)
        if ok:
            out.append((s1, [I(len(vs)), NIL]))
        else:
            n = fresh('nscanned', INT)
            s1.assume(AND(n >= 0, n <= len(vs)))
            out.append((s1, [n, anyerr(ex, s1)]))
    return out


# ---------------------------------------------------------------- strings and runes

@ext('unicode.IsUpper')
def _(ex, st, args, ins, c):
    r = args[0]
    return [(st, [z3.simplify(ite(r < 128, AND(r >= 65, r <= 90), isupper(r)))])]


def bytes_to_string(ex, st, x):
    return str_bytes(ex.sel(ex.reg(st, ('E', 'uint8', (), 'uint8')), s_ref(x)), s_off(x), s_len(x))


def string_to_bytes(ex, st, x, to):
    r = ex.alloc(st)
    row = fresh('bytes', ARR)
    j = z3.Int('j!')
    st.assume(FA([j], AND(z3.Select(row, j) >= 0, z3.Select(row, j) <= 255,
                          IMP(AND(j >= 0, j < str_len(x)), z3.Select(row, j) == str_at(x, j))), patterns=[z3.Select(row, j)]))
    key = ('E', 'uint8', (), 'uint8')
    st.heap[key] = ex.upd(ex.reg(st, key), r, row)
    return s_mk(r, I(0), str_len(x), str_len(x))


# ---------------------------------------------------------------- time

@ext('time.Parse')
def _(ex, st, args, ins, c):
    good, bad = split(ex, st, tparse_ok(*args))
    out = []
    if good is not None:
        out.append((good, [tparse(*args), NIL]))
    if bad is not None:
        out.append((bad, [z3.Const('zero_time.Time', TIME), anyerr(ex, bad)]))
    return out


@ext('(time.Time).Add')
def _(ex, st, args, ins, c):
    return [(st, [tadd(*args)])]


@ext('(time.Time).Before')
def _(ex, st, args, ins, c):
    return [(st, [inst(args[0]) < inst(args[1])])]


@ext('(time.Time).After')
def _(ex, st, args, ins, c):
    return [(st, [inst(args[0]) > inst(args[1])])]


@ext('(time.Time).Equal')
def _(ex, st, args, ins, c):
    return [(st, [inst(args[0]) == inst(args[1])])]


@ext('(time.Time).Compare')
def _(ex, st, args, ins, c):
    a, b = inst(args[0]), inst(args[1])
    return [(st, [ite(a < b, I(-1), ite(a > b, I(1), I(0)))])]


# ---------------------------------------------------------------- readers

def stream_facts(ex, st, S):
    st.assume(AND(st_len(S) >= 0, st_len(S) <= MAXLEN))


@ext('bufio.NewReader', 'bufio.NewReaderSize')
def _(ex, st, args, ins, c):
    rd = args[0]
    ex.ob(st, rd.term != 0, 'nil', 'nil reader', ins) if False else None
    t = ref_of(ex, rd)
    r = ex.alloc(st)
    S = content(t, gget(ex, st, 'ver', t))
    st.assume(rd_stream(r) == S)
    stream_facts(ex, st, S)
    gset(ex, st, 'pos', r, I(0))
    bump(ex, st, t)
    return [(st, [r])]


def rpos(ex, st, r):
    p = gget(ex, st, 'pos', r)
    S = rd_stream(r)
    st.assume(AND(p >= 0, p <= st_len(S), st_len(S) <= MAXLEN))
    return S, p


def find(ex, st, S, p, d):
    q = sfind(S, p, d)
    return q


@ext('(*bufio.Reader).ReadString')
def _(ex, st, args, ins, c):
    r, d = args
    S, p = rpos(ex, st, r)
    q = find(ex, st, S, p, d)
    good, bad = split(ex, st, q < st_len(S))
    out = []
    if good is not None:
        gset(ex, good, 'pos', r, ex.addn(q, I(1)))
        out.append((good, [sstr(S, p, ex.addn(ex.addn(q, I(1)), -p)), NIL]))
    if bad is not None:
        gset(ex, bad, 'pos', r, st_len(S))
        out.append((bad, [sstr(S, p, ex.addn(st_len(S), -p)), anyerr(ex, bad)]))
    return out


@ext('(*bufio.Reader).ReadBytes')
def _(ex, st, args, ins, c):
    r, d = args
    S, p = rpos(ex, st, r)
    q = find(ex, st, S, p, d)
    key = ('E', 'uint8', (), 'uint8')
    good, bad = split(ex, st, q < st_len(S))
    out = []
    for s1, end, ok in ((good, ex.addn(q, I(1)), True), (bad, st_len(S), False)):
        if s1 is None:
            continue
        b = ex.alloc(s1)
        s1.heap[key] = ex.upd(ex.reg(s1, key), b, st_arr(S))
        gset(ex, s1, 'pos', r, end)
        n = ex.addn(end, -p)
        out.append((s1, [s_mk(b, p, n, n), NIL if ok else anyerr(ex, s1)]))
    return out


@ext('(*bufio.Reader).ReadByte')
def _(ex, st, args, ins, c):
    r = args[0]
    S, p = rpos(ex, st, r)
    good, bad = split(ex, st, p < st_len(S))
    out = []
    if good is not None:
        gset(ex, good, 'pos', r, ex.addn(p, I(1)))
        v = z3.Select(st_arr(S), p)
        ex.bnd[v.get_id()] = (v, 0, 255)
        out.append((good, [v, NIL]))
    if bad is not None:
        out.append((bad, [I(0), anyerr(ex, bad)]))
    return out


def received(ex, s, st, r, b, m):
    """m bytes of the stream arrive at the start of b; the rest of b is arbitrary"""
    S, p = rpos(ex, st, r)
    key, n, o = ('E', 'uint8', (), 'uint8'), s_len(b), s_off(b)
    old = ex.sel(ex.reg(s, key), s_ref(b))
    row, j = fresh('read', ARR), z3.Int('j!')
    sel = z3.Select(row, j)
    s.assume(FA([j], AND(sel >= 0, sel <= 255), patterns=[sel]))
    s.assume(FA([j], IMP(OR(j < o, j >= o + n), sel == z3.Select(old, j)), patterns=[sel]))
    if m is not None:
        s.assume(FA([j], IMP(AND(j >= o, j < o + m), sel == z3.Select(st_arr(S), p + (j - o))), patterns=[sel]))
    s.heap[key] = ex.upd(ex.reg(s, key), s_ref(b), row)
    gset(ex, s, 'pos', r, st_len(S) if m is None else ex.addn(p, m))


def bufreader(rd, b):
    if isinstance(b, CellSlice):
        raise Unsupported('read into a local array')
    if isinstance(rd, VIface):
        if rd.dt != '*bufio.Reader':
            raise Unsupported('read from an unknown reader')
        rd = rd.val
    return rd


@ext('io.ReadFull', 'io.ReadAtLeast')
def _(ex, st, args, ins, c):
    rd, b = args[:2]
    r = bufreader(rd, b)
    S, p = rpos(ex, st, r)
    n = lo = s_len(b)
    out = []
    if len(args) > 2:
        lo = args[2]
        st, short = split(ex, st, lo <= n)
        if short is not None:
            out.append((short, [I(0), anyerr(ex, short)]))
        if st is None:
            return out
        if ex.entails(st, lo == n):
            lo = n
    good, bad = split(ex, st, p + lo <= st_len(S))
    if good is not None:
        m = n
        if not lo.eq(n):
            m = fresh('nread', INT)
            good.assume(AND(m >= 0, m >= lo, m <= n, m <= st_len(S) - p))
        received(ex, good, st, r, b, m)
        out.append((good, [m, NIL]))
    if bad is not None:
        received(ex, bad, st, r, b, None)
        m = fresh('nread', INT)
        bad.assume(AND(m >= 0, m < n))
        out.append((bad, [m, anyerr(ex, bad)]))
    return out


@ext('(*bufio.Reader).Read')
def _(ex, st, args, ins, c):
    """may deliver fewer bytes than there is room for, but at least one"""
    r, b = args
    r = bufreader(r, b)
    S, p = rpos(ex, st, r)
    n = s_len(b)
    out = []
    some, none = split(ex, st, n > 0)
    if none is not None:
        out.append((none, [I(0), NIL]))
    if some is None:
        return out
    good, bad = split(ex, some, p < st_len(S))
    if good is not None:
        m = fresh('nread', INT)
        good.assume(AND(m >= 1, m <= n, m <= st_len(S) - p))
        received(ex, good, st, r, b, m)
        out.append((good, [m, NIL]))
    if bad is not None:
        out.append((bad, [I(0), VIface(I(EXTGLOB['io.EOF']))]))
    return out


@ext('(*bufio.Reader).Discard')
def _(ex, st, args, ins, c):
    r, n = args
    S, p = rpos(ex, st, r)
    good, bad = split(ex, st, AND(n >= 0, p + n <= st_len(S)))
    out = []
    if good is not None:
        gset(ex, good, 'pos', r, ex.addn(p, n))
        out.append((good, [n, NIL]))
    if bad is not None:
        q = fresh('discarded', INT)
        bad.assume(AND(q >= 0, q <= st_len(S) - p))
        gset(ex, bad, 'pos', r, ex.addn(p, q))
        out.append((bad, [q, anyerr(ex, bad)]))
    return out


@ext('compress/bzip2.NewReader')
def _(ex, st, args, ins, c):
    t = ref_of(ex, args[0])
    S = content(t, gget(ex, st, 'ver', t))
    z = ex.alloc(st)
    v = fresh('ver', INT)
    st.assume(content(z, v) == bz(S))
    gset(ex, st, 'ver', z, v)
    bump(ex, st, t)
    return [(st, [VIface(z)])]


@ext('archive/tar.NewReader')
def _(ex, st, args, ins, c):
    t = ref_of(ex, args[0])
    S = content(t, gget(ex, st, 'ver', t))
    a = ex.alloc(st)
    st.assume(tar_src(a) == S)
    st.assume(tar_n(S) >= 0)
    st.assume(tar_n(S) <= MAXLEN)
    gset(ex, st, 'taridx', a, I(0))
    bump(ex, st, t)
    return [(st, [a])]


@ext('(*archive/tar.Reader).Next')
def _(ex, st, args, ins, c):
    a = args[0]
    S = tar_src(a)
    k = gget(ex, st, 'taridx', a)
    st.assume(AND(k >= 0, k <= tar_n(S)))
    more, end = split(ex, st, k < tar_n(S))
    out = []
    if more is not None:
        h = ex.alloc(more)
        v = tar_ver(a, k)
        more.assume(content(a, v) == tar_entry(S, k))
        more.assume(tar_verk(v) == k)
        gset(ex, more, 'ver', a, v)
        gset(ex, more, 'taridx', a, ex.addn(k, I(1)))
        out.append((more, [h, NIL]))
    if end is not None:
        ok, bad = split(ex, end, tar_ok(S))
        if ok is not None:
            out.append((ok, [I(0), VIface(I(EXTGLOB['io.EOF']))]))
        if bad is not None:
            out.append((bad, [I(0), anyerr(ex, bad, ('io.EOF',))]))
    return out


# ---------------------------------------------------------------- sorting

def sort_slice(ex, st, sl, call, et, ins, c, fr=None):
    """permutes the slice; afterwards no element is less than an earlier one. The comparison is
    executed symbolically and must be a strict weak order (proof obligation)"""
    n, o, ref = s_len(sl), s_off(sl), s_ref(sl)
    tag = smt.freshname('perm')
    p, q = F(tag, INT, INT), F(tag + 'inv', INT, INT)
    i, j = z3.Int('i!'), z3.Int('j!')
    rng = lambda x: AND(x >= o, x < o + n)
    st.assume(FA([i], IMP(rng(i), AND(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    st.assume(FA([i], IMP(rng(i), AND(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    for path, lt in ex.leaves(et):
        key = ('E', et, path, lt)
        old = ex.sel(ex.reg(st, key), ref)
        row = fresh('sorted', z3.ArraySort(INT, ex.sort(lt)))
        s = z3.Select(row, i)
        st.assume(FA([i], IMP(rng(i), s == z3.Select(old, p(i))), patterns=[s]))
        so = z3.Select(old, i)
        st.assume(FA([i], IMP(rng(i), so == z3.Select(row, q(i))), patterns=[so]))
        st.assume(FA([i], IMP(NOT(rng(i)), s == z3.Select(old, i)), patterns=[s]))
        st.heap[key] = ex.upd(ex.reg(st, key), ref, row)
    # the comparison, as a formula over two positions
    x, y, z = z3.Int(smt.freshname('x')), z3.Int(smt.freshname('y')), z3.Int(smt.freshname('z'))

    def run(a, b):
        s = st.copy()
        s.assume(AND(a >= 0, a < n, b >= 0, b < n))
        k = len(s.path)
        rs = call(s, a, b)
        if len(rs) != 1:
            raise Unsupported('comparison function with several outcomes')
        s2, v = rs[0]
        for key in set(s2.heap):
            if key not in st.heap or not s2.heap[key].eq(st.heap[key]):
                raise Unsupported('comparison function with side effects')
        return v
    try:
        lxy = run(x, y)
    except Unsupported:
        raise
    L = lambda a, b: z3.substitute(lxy, (x, a), (y, b))
    inr = AND(*[AND(v >= 0, v < n) for v in (x, y, z)])
    ex.ob(st, IMP(inr, AND(NOT(L(x, x)), IMP(AND(L(x, y), L(y, z)), L(x, z)),
                           IMP(AND(NOT(L(x, y)), NOT(L(y, z))), NOT(L(x, z))))), 'order', 'comparison is a strict weak order', ins)
    # absolute indices for triggering
    a, b = z3.Int(smt.freshname('a')), z3.Int(smt.freshname('b'))
    body = IMP(AND(rng(a), rng(b), a < b), NOT(L(b - o, a - o)))
    fkey = [k for k in [('E', et, pth, lt) for pth, lt in ex.leaves(et)]][0]
    row = ex.sel(ex.reg(st, fkey), ref)
    st.assume(FA([a, b], body))        # triggers are inferred: {row[a], row[b]}
    return st


@ext('sort.Slice', 'sort.SliceStable')
def _(ex, st, args, ins, c):
    x, less = args
    if not isinstance(x, VIface) or x.dt is None or ex.kind(x.dt) != 'slice':
        raise Unsupported('sort.Slice of an unknown value')
    nosig = {'args': [], 'sig': None}
    sort_slice(ex, st, x.val, lambda s, a, b: ex.apply(ex.curframe, s, less, [a, b], nosig, ins), ex.elem(x.dt), ins, c)
    return [(st, [])]


@ext('sort.Sort', 'sort.Stable')
def _(ex, st, args, ins, c):
    """Len and Swap have to be the length and the exchange of elements of the underlying slice (obligations)"""
    x, = args
    if not isinstance(x, VIface) or x.dt is None or ex.kind(x.dt) != 'slice':
        raise Unsupported('sort.Sort of an unknown value')
    et, sl, nosig = ex.elem(x.dt), x.val, {'args': [], 'sig': None}

    def call(s, name, *a):
        return ex.invoke(ex.curframe, s, x, x.dt, name, list(a), nosig, ins)
    rs = call(st.copy(), 'Len')
    if len(rs) != 1:
        raise Unsupported('Len with several outcomes')
    ex.ob(rs[0][0], rs[0][1] == s_len(sl), 'order', 'Len is the length of the slice', ins)
    s = st.copy()
    i, j = fresh('swap_i', INT), fresh('swap_j', INT)
    s.assume(AND(i >= 0, i < s_len(sl), j >= 0, j < s_len(sl)))
    rs = call(s, 'Swap', i, j)
    if len(rs) != 1:
        raise Unsupported('Swap with several outcomes')
    s2, want = rs[0][0], dict(st.heap)
    for path, lt in ex.leaves(et):
        key = ('E', et, path, lt)
        old = ex.sel(ex.reg(st, key), s_ref(sl))
        a, b = ex.addn(s_off(sl), i), ex.addn(s_off(sl), j)
        new = ex.upd(ex.upd(old, a, ex.sel(old, b)), b, ex.sel(old, a))
        ex.ob(s2, ex.sel(ex.reg(s2, key), s_ref(sl)) == new, 'order', 'Swap exchanges two elements', ins)
        want[key] = ex.upd(ex.reg(st, key), s_ref(sl), ex.sel(ex.reg(s2, key), s_ref(sl)))
    for key in s2.heap:
        w = want.get(key)
        if w is None or not (w.eq(s2.heap[key]) or ex.prover.check(s2.facts(), w == s2.heap[key], 1000) == 'proved'):
            raise Unsupported('Swap with further effects')
    sort_slice(ex, st, sl, lambda s, a, b: call(s, 'Less', a, b), et, ins, c)
    return [(st, [])]


@ext('slices.SortFunc', 'slices.SortStableFunc')
def _(ex, st, args, ins, c):
    sl, cmp = args
    t = ex.T.norm(c['args'][0]['t'])
    et, nosig = ex.elem(t), {'args': [], 'sig': None}

    def call(s, a, b):
        at = lambda k: ex.load(s, PElem(et, s_ref(sl), ex.addn(s_off(sl), k)), et, ins)
        return [(s2, v < 0) for s2, v in ex.apply(ex.curframe, s, cmp, [at(a), at(b)], nosig, ins)]
    sort_slice(ex, st, sl, call, et, ins, c)
    return [(st, [])]


# ---------------------------------------------------------------- images

@ext('image.Rect')
def _(ex, st, args, ins, c):
    x0, y0, x1, y1 = args
    lt = lambda a, b: ite(z3.simplify(a > b), b, a)
    gt = lambda a, b: ite(z3.simplify(a > b), a, b)
    P = 'image.Point'
    return [(st, [VStruct('image.Rectangle', [VStruct(P, [lt(x0, x1), lt(y0, y1)]), VStruct(P, [gt(x0, x1), gt(y0, y1)])])])]


@ext('image.NewRGBA')
def _(ex, st, args, ins, c):
    r = args[0]
    (x0, y0), (x1, y1) = r.vals[0].vals, r.vals[1].vals
    w, h = ex.addn(x1, -x0), ex.addn(y1, -y0)
    w, h = z3.simplify(w), z3.simplify(h)
    ex.ob(st, AND(w >= 0, h >= 0, w * h * 4 <= MAXLEN), 'make', 'image dimensions out of range', ins)
    ref = ex.alloc(st)
    st.assume(img_w(ref) == w)
    st.assume(img_h(ref) == h)
    ex.wrv(st, lambda path, lt, term: ex.wr_leaf(st, ('F', 'image.RGBA', (2,) + path, lt), ref, term), r, 'image.Rectangle')
    blank = z3.K(INT, z3.K(INT, mkC(I(0), I(0), I(0), I(0))))
    gset(ex, st, 'pix', ref, blank)
    return [(st, [ref])]


@ext('(*image.RGBA).Set', '(*image.RGBA).SetRGBA')
def _(ex, st, args, ins, c):
    ref, x, y, col = args
    if isinstance(col, VIface):
        if col.dt != 'image/color.RGBA':
            raise Unsupported('Set with an unknown colour type')
        col = col.val
    ex.ob(st, ref != 0, 'nil', 'nil image', ins)
    R = ex.rd(st, lambda path, lt: ex.rd_leaf(st, ('F', 'image.RGBA', (2,) + path, lt), ref), 'image.Rectangle')
    (x0, y0), (x1, y1) = R.vals[0].vals, R.vals[1].vals
    inside = AND(x >= x0, x < x1, y >= y0, y < y1)
    new = mkC(*col.vals)
    pix = gget(ex, st, 'pix', ref)
    colm = z3.Select(pix, x) if not z3.is_app(pix) or pix.decl().kind() != z3.Z3_OP_STORE else ex.sel(pix, x)
    if not ex.entails(st, inside):
        new = ite(inside, new, ex.sel(colm, y))
    gset(ex, st, 'pix', ref, ex.upd(pix, x, ex.upd(colm, y, new)))
    return [(st, [])]


@ext('(*image.RGBA).Bounds')
def _(ex, st, args, ins, c):
    ref = args[0]
    return [(st, [ex.rd(st, lambda path, lt: ex.rd_leaf(st, ('F', 'image.RGBA', (2,) + path, lt), ref), 'image.Rectangle')])]


# ---------------------------------------------------------------- process exit

@ext('log.Fatal', 'log.Fatalf', 'log.Fatalln', 'os.Exit')
def _(ex, st, args, ins, c):
    return []


# ---------------------------------------------------------------- append and copy

def append(ex, st, args, c, ins):
    s, e = args
    t = c['args'][0]['t']
    et = ex.elem(t)
    if isinstance(e, CellSlice) or isinstance(s, CellSlice):
        raise Unsupported('append of interface or function values')
    n, o, ref, cap = s_len(s), s_off(s), s_ref(s), s_cap(s)
    if e.sort() == STR:
        k = str_len(e)
        src = lambda path, lt, m: str_at(e, m)
    else:
        k = s_len(e)
        rows = {}

        def src(path, lt, m):
            key = ('E', et, path, lt)
            if key not in rows:
                rows[key] = ex.sel(ex.reg(st, key), s_ref(e))
            return z3.Select(rows[key], s_off(e) + m) if not (z3.is_int_value(s_off(e)) and z3.is_int_value(m)) else ex.sel(rows[key], I(s_off(e).as_long() + m.as_long()))
    k = z3.simplify(k)
    n2 = ex.addn(n, k)
    ex.ob(st, n2 <= MAXLEN // max(ex.sizeof(et), 1), 'make', 'append: out of memory', ins, props=()) if False else st.assume(n2 <= MAXLEN)
    newref = ex.alloc(st)
    inplace = z3.simplify(n2 <= cap)
    if z3.is_int_value(k) and k.as_long() == 0:
        return s
    ncap = fresh('cap', INT)
    st.assume(AND(ncap >= n2, ncap <= MAXLEN))
    tgt = ite(inplace, ref, newref)
    vals = {}
    for path, lt in ex.leaves(et):
        key = ('E', et, path, lt)
        old = ex.sel(ex.reg(st, key), ref)
        if z3.is_int_value(k) and k.as_long() <= 8:
            row = old
            for m in range(k.as_long()):
                row = z3.Store(row, ex.addn(ex.addn(o, n), I(m)), src(path, lt, I(m)))
        else:
            row = fresh('app', z3.ArraySort(INT, ex.sort(lt)))
            j = z3.Int('j!')
            sl = z3.Select(row, j)
            st.assume(FA([j], IMP(OR(j < o + n, j >= o + n2), sl == z3.Select(old, j)), patterns=[sl]))
            st.assume(FA([j], IMP(AND(j >= o + n, j < o + n2), sl == src(path, lt, j - (o + n))), patterns=[sl]))
        vals[key] = row
    for key, row in vals.items():
        st.heap[key] = ex.upd(ex.reg(st, key), tgt, row)
    return s_mk(tgt, o, n2, ite(inplace, cap, ncap))


def copy(ex, st, args, c, ins):
    d, e = args
    t = c['args'][0]['t']
    et = ex.elem(t)
    if isinstance(d, CellSlice) or isinstance(e, CellSlice):
        raise Unsupported('copy of interface or function values')
    kd, ks = s_len(d), (str_len(e) if e.sort() == STR else s_len(e))
    n = kd if ex.entails(st, kd <= ks) else ks if ex.entails(st, ks <= kd) else z3.If(kd < ks, kd, ks)
    o = s_off(d)
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 16 and e.sort() != STR:
        vs = [ex.load(st, PElem(et, s_ref(e), ex.addn(s_off(e), I(i))), et, ins) for i in range(n.as_long())]
        for i, v in enumerate(vs):
            ex.store(st, PElem(et, s_ref(d), ex.addn(o, I(i))), v, et, ins)
        return n
    news = {}
    for path, lt in ex.leaves(et):
        key = ('E', et, path, lt)
        old = ex.sel(ex.reg(st, key), s_ref(d))
        row = fresh('copied', z3.ArraySort(INT, ex.sort(lt)))
        j = z3.Int('j!')
        sl = z3.Select(row, j)
        if e.sort() == STR:
            v = str_at(e, j - o)
        else:
            v = z3.Select(ex.sel(ex.reg(st, key), s_ref(e)), s_off(e) + (j - o))
        st.assume(FA([j], IMP(OR(j < o, j >= o + n), sl == z3.Select(old, j)), patterns=[sl]))
        st.assume(FA([j], IMP(AND(j >= o, j < o + n), sl == v), patterns=[sl]))
        f = ex.typefact(sl, lt, st.alloc)
        if f is not None:
            st.assume(FA([j], f, patterns=[sl]))
        news[key] = row
    for key, row in news.items():
        st.heap[key] = ex.upd(ex.reg(st, key), s_ref(d), row)
    return n


# ---------------------------------------------------------------- everything else

PURE = ('strings.', 'strconv.', 'unicode.', 'unicode/utf8.', 'errors.', '(time.Time).', '(time.Duration).', 'time.', 'math/bits.', 'math.', '(*strings.', 'bytes.')
NOTPURE = ('strings.Repeat', 'time.Sleep', 'strings.NewReader', 'strings.Map')


def fallback(ex, st, name, fn, args, c, ins):
    """pure library functions without a model: arbitrary results"""
    if name.startswith(PURE) and name not in NOTPURE and not any(isinstance(a, (FnRef, Closure, FnSym, PCell, PField, PElem)) for a in args):
        sig = c.get('sig') or fn.d['sig']
        rs = ex.T.u(sig)['results']
        return [(st, [ex.symval(st, t, 'ext') for t in rs])]
    return None


def alloc_effects(ex, c):
    f = (c.get('fn') or {})
    n = f.get('n', '') if f.get('v') == 'func' else ''
    b = {('E', 'uint8', (), 'uint8')}
    if n.endswith('.ReadBytes'):
        return b
    if n == 'image.NewRGBA':
        return {('F', 'image.RGBA', (2,) + p, lt) for p, lt in ex.leaves('image.Rectangle')} | {('G', 'pix')}
    if n.startswith('bufio.NewReader'):
        return {('G', 'pos'), ('G', 'ver')}
    if n == 'compress/bzip2.NewReader':
        return {('G', 'ver')}
    if n == 'archive/tar.NewReader':
        return {('G', 'taridx'), ('G', 'ver')}
    return set()


def ground_axioms(ex, g, done):
    """instances of the library axioms for the ground terms of a query"""
    out = []
    for t in g.apps.get('sfind', []):
        k = ('sfind', t.get_id())
        if k in done:
            continue
        done.add(k)
        S, p, d = t.children()
        j = z3.Int('j!')
        out.append(AND(t >= p, IMP(p <= st_len(S), t <= st_len(S)),
                       IMP(AND(p >= 0, t < st_len(S)), z3.Select(st_arr(S), t) == d)))
        out.append(FA([j], IMP(AND(j >= p, j < t), z3.Select(st_arr(S), j) != d), patterns=[z3.Select(st_arr(S), j)]))
    if 'sfind' in g.names and ('sfindq',) not in done:
        done.add(('sfindq',))
        S = z3.Const('S!', STREAM)
        p, d = z3.Ints('p! d!')
        t = sfind(S, p, d)
        out.append(FA([S, p, d], AND(t >= p, IMP(p <= st_len(S), t <= st_len(S))), patterns=[t]))
    if 'sstr' in g.names and ('sstr',) not in done:
        done.add(('sstr',))
        S = z3.Const('S!', STREAM)
        p, n, i = z3.Ints('p! n! i!')
        t = sstr(S, p, n)
        out.append(FA([S, p, n], IMP(AND(n >= 0, n <= MAXLEN), str_len(t) == n), patterns=[t]))
        out.append(FA([S, p, n, i], IMP(AND(i >= 0, i < n, n <= MAXLEN), str_at(t, i) == z3.Select(st_arr(S), p + i)), patterns=[str_at(t, i)]))
    if 'st_arr' in g.names and ('st_arr',) not in done:
        done.add(('st_arr',))
        S = z3.Const('S!', STREAM)
        i = z3.Int('i!')
        t = z3.Select(st_arr(S), i)
        out.append(FA([S, i], AND(t >= 0, t <= 255), patterns=[t]))
    if 'st_len' in g.names and ('st_len',) not in done:
        done.add(('st_len',))
        S = z3.Const('S!', STREAM)
        out.append(FA([S], AND(st_len(S) >= 0, st_len(S) <= MAXLEN), patterns=[st_len(S)]))
    # the integer read from a short text by %d is small
    for t in g.apps.get('scan_int', []):
        k = ('scan_int', t.get_id())
        b = smt.lit_of(t.arg(0))
        if k in done or b is None or b.decode('latin1') not in ('%d', '%2d', '%dx%d'):
            continue
        done.add(k)
        n = str_len(t.arg(2))
        out.append(AND(IMP(n <= 2, AND(t >= -9, t <= 99)), IMP(n <= 3, AND(t >= -99, t <= 999)), IMP(n <= 9, AND(t > -10**9, t < 10**9))))
    # a string that is looked at byte by byte and compared with a short literal
    at = {t.arg(0).get_id() for t in g.apps.get('str_at', ())}
    for t in g.apps.get('=str', ()):
        for x, l in (t.children(), t.children()[::-1]):
            b = smt.lit_of(l)
            k = ('=lit', t.get_id())
            if b is None or len(b) > 8 or k in done or x.get_id() not in at:
                continue
            done.add(k)
            out.append(t == AND(str_len(x) == len(b), *[str_at(x, I(j)) == c for j, c in enumerate(b)]))
    # byte sequences with equal contents are equal strings
    bs = g.apps.get('str_bytes', [])[:4]
    for k, a in enumerate(bs):
        for b in bs[k + 1:] + g.apps.get('sstr', [])[:4]:
            key = ('ext', a.get_id(), b.get_id())
            if key in done:
                continue
            done.add(key)
            j = fresh('differs', INT)
            out.append(OR(a == b, str_len(a) != str_len(b), AND(j >= 0, j < str_len(a), str_at(a, j) != str_at(b, j))))
    if 'str_bytes' in g.names and ('str_bytes',) not in done:
        done.add(('str_bytes',))
        a = z3.Const('a!', ARR)
        o, n, i = z3.Ints('o! n! i!')
        t = str_bytes(a, o, n)
        out.append(FA([a, o, n], IMP(AND(n >= 0, n <= MAXLEN), str_len(t) == n), patterns=[t]))
        e = z3.Select(a, o + i)
        out.append(FA([a, o, n, i], IMP(AND(i >= 0, i < n, n <= MAXLEN, e >= 0, e <= 255), str_at(t, i) == e), patterns=[str_at(t, i)]))
    return out
