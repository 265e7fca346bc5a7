"""Facts about the elementary functions on the reals, instantiated at the terms that occur.

Symbols: r_log (natural logarithm), r_pow, r_exp, r_sin, r_cos, r_tan, r_sqrt, r_atan.
Terms without variables are enclosed in rational intervals by interval arithmetic
(mpmath.iv, 60 digits); the enclosures are facts. Everything else is a schema that holds
for all reals: see `facts`."""
from fractions import Fraction
import z3
from mpmath import iv, mp, mpf

iv.dps = 60
mp.dps = 60

FNS = {'r_sin', 'r_cos', 'r_tan', 'r_pow', 'r_log', 'r_exp', 'r_sqrt', 'r_atan'}
_cl = {}
_iv = {}


def closed(t):
    """built from numbers, arithmetic and elementary functions only"""
    i = t.get_id()
    c = _cl.get(i)
    if c is not None and c[0].eq(t):
        return c[1]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        r = True
    elif not z3.is_app(t) or not t.num_args() or t.sort() not in (z3.RealSort(), z3.IntSort()):
        r = False
    else:
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            r = t.decl().name() in FNS and all(closed(c) for c in t.children())
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            r = all(closed(c) for c in t.children())
        else:
            r = False
    _cl[i] = (t, r)
    return r


def rat(f):
    return iv.mpf(f.numerator) / iv.mpf(f.denominator)


def enclose(t):
    """interval containing the value of a closed term, or None"""
    i = t.get_id()
    c = _iv.get(i)
    if c is not None and c[0].eq(t):
        return c[1]
    try:
        r = enclose1(t)
    except Exception:
        r = None
    _iv[i] = (t, r)
    return r


def enclose1(t):
    if z3.is_int_value(t):
        return iv.mpf(t.as_long())
    if z3.is_rational_value(t):
        return rat(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    a = [enclose(c) for c in t.children()]
    if any(x is None for x in a):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_MUL:
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_TO_REAL:
        return a[0]
    if k == z3.Z3_OP_DIV:
        return None if 0 in a[1] else a[0] / a[1]
    n = t.decl().name()
    x = a[0]
    if n == 'r_sin':
        return iv.sin(x)
    if n == 'r_cos':
        return iv.cos(x)
    if n == 'r_tan':
        c = iv.cos(x)
        return None if 0 in c else iv.sin(x) / c
    if n == 'r_exp':
        return iv.exp(x)
    if n == 'r_log':
        return iv.log(x) if x.a > 0 else None
    if n == 'r_sqrt':
        return iv.sqrt(x) if x.a >= 0 else None
    if n == 'r_pow':
        return iv.exp(a[1] * iv.log(x)) if x.a > 0 else None
    return None


def bounds(t):
    """outward rounded rational bounds of a closed term, or None"""
    e = enclose(t)
    if e is None:
        return None
    lo, hi = frac(e.a), frac(e.b)
    m = max(abs(lo), abs(hi), Fraction(1, 10 ** 30))
    # 25 significant decimals
    q = 1
    while m * q < 10 ** 24:
        q *= 10
    q = Fraction(q)
    while m * q > 10 ** 25:
        q /= 10
    lo, hi = Fraction((lo * q).__floor__()) / q, Fraction((hi * q).__ceil__()) / q
    return lo, hi


def frac(x):
    x = mpf(x)
    s, man, ex, _ = x._mpf_
    f = Fraction(int(man)) * (Fraction(2) ** ex)
    return -f if s else f


def rv(f):
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def decide(c):
    """truth value of a comparison of closed terms, or None"""
    if z3.is_not(c):
        r = decide(c.arg(0))
        return None if r is None else not r
    if not (z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == z3.RealSort() and closed(c.arg(0)) and closed(c.arg(1))):
        return None
    a, b = enclose(c.arg(0)), enclose(c.arg(1))
    if a is None or b is None:
        return None
    k = c.decl().kind()
    lt, gt = a.b < b.a, a.a > b.b
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        return True if lt else False if gt else None
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        return True if gt else False if lt else None
    if k == z3.Z3_OP_EQ and (lt or gt):
        return False
    if k == z3.Z3_OP_DISTINCT and (lt or gt):
        return True
    return None


HALFPI_LO = z3.RealVal('1.5707963267948966192313216916397514420')
HALFPI_HI = z3.RealVal('1.5707963267948966192313216916397514421')


def collect(forms):
    from .smt import has_var
    out, seen, w = [], set(), list(forms)
    while w:
        x = w.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            w.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.sort() == z3.RealSort() and not has_var(x):
                out.append(x)
            w.extend(x.children())
    return out


def facts(forms, order=True):
    R = z3.RealVal
    f1 = lambda n: z3.Function(n, z3.RealSort(), z3.RealSort())
    ln, sin, cos, exp = f1('r_log'), f1('r_sin'), f1('r_cos'), f1('r_exp')
    out = []
    done = set()
    frontier = collect(forms)
    all_ = list(frontier)
    apps = {}
    lnargs = []

    def addln(x):
        if not any(x.eq(y) for y in lnargs) and len(lnargs) < 24:
            lnargs.append(x)
    hasln = any(z3.is_app(t) and t.decl().name() in ('r_log', 'r_pow', 'r_exp', 'r_sqrt') for t in frontier)
    for rnd in range(4):
        new = []
        for t in frontier:
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            all_.append(t)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in FNS:
                n = t.decl().name()
                apps.setdefault(n, []).append(t)
                x = t.arg(0)
                if n in ('r_sin', 'r_cos'):
                    s, c = sin(x), cos(x)
                    new += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
                    # strictly inside a half turn the cosine is positive, and |sin| < 1
                    new.append(z3.Implies(z3.And(x > -HALFPI_LO, x < HALFPI_LO), z3.And(c > 0, s > -1, s < 1)))
                    new.append(z3.Implies(z3.And(x > -HALFPI_LO, x < 2 * HALFPI_LO), s > -1))
                elif n == 'r_tan':
                    new.append(t * cos(x) == sin(x))
                    new.append(z3.Implies(z3.And(x >= 0, x < HALFPI_LO), t >= 0))
                elif n == 'r_pow':
                    y = t.arg(1)
                    new.append(z3.Implies(x > 0, z3.And(t > 0, ln(t) == y * ln(x))))
                    addln(t)
                    addln(x)
                elif n == 'r_exp':
                    new += [t > 0, ln(t) == x]
                    addln(t)
                elif n == 'r_sqrt':
                    new.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
                elif n == 'r_log':
                    addln(x)
            elif hasln and t.decl().kind() == z3.Z3_OP_MUL and mentions(t):
                cs = t.children()
                if any(mentions(c) for c in cs):
                    p = z3.And(*[c > 0 for c in cs])
                    e = ln(cs[0])
                    for c in cs[1:]:
                        e = e + ln(c)
                    new.append(z3.Implies(p, z3.And(t > 0, ln(t) == e)))
                    addln(t)
            elif hasln and t.decl().kind() == z3.Z3_OP_DIV and mentions(t):
                a, b = t.children()
                new.append(z3.Implies(z3.And(a > 0, b > 0), z3.And(t > 0, ln(t) == ln(a) - ln(b))))
                addln(t)
        out += new
        frontier = collect(new)
        if not new:
            break
    for x in lnargs if order else ():
        out.append(z3.Implies(x == 1, ln(x) == 0))
        out.append(z3.Implies(z3.And(x > 0, x < 1), ln(x) < 0))
        out.append(z3.Implies(x > 1, ln(x) > 0))
    for i in range(len(lnargs) if order else 0):
        for j in range(i):
            x, y = lnargs[i], lnargs[j]
            if z3.is_rational_value(x) and z3.is_rational_value(y):
                continue
            lx, ly = ln(x), ln(y)
            out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (lx < ly), (x == y) == (lx == ly))))
    # enclosures of closed terms
    ed = set()
    for t in all_ + collect(out):
        if t.get_id() in ed or z3.is_rational_value(t) or not closed(t):
            continue
        ed.add(t.get_id())
        if not mentions(t):
            continue
        b = bounds(t)
        if b is not None:
            out += [t >= rv(b[0]), t <= rv(b[1])]
    return out


_m = {}


def mentions(t):
    """contains an application of an elementary function"""
    i = t.get_id()
    c = _m.get(i)
    if c is not None and c[0].eq(t):
        return c[1]
    if z3.is_app(t):
        r = (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in FNS) or any(mentions(c) for c in t.children())
    else:
        r = False
    _m[i] = (t, r)
    return r


def arith(c):
    """a comparison of real terms, or near(x, y)"""
    return z3.is_app(c) and c.num_args() == 2 and z3.is_arith(c.arg(0)) and c.arg(0).sort() == z3.RealSort()
