"""Sorts, strings, slices and the three models of floating point numbers."""
import z3
from fractions import Fraction
from . import reals

INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
STR = z3.DeclareSort('Str')
STREAM = z3.DeclareSort('Stream')
SLICE = z3.Datatype('Slice')
SLICE.declare('s_mk', ('s_ref', INT), ('s_off', INT), ('s_len', INT), ('s_cap', INT))
SLICE = SLICE.create()
FUNCS = z3.DeclareSort('FuncVal')
COLOR = z3.DeclareSort('Color')
MAXLEN = 2 ** 47

_opaque = {}


def opaque(name):
    if name not in _opaque:
        _opaque[name] = z3.DeclareSort('T_' + name.replace('/', '_').replace('.', '_'))
    return _opaque[name]


F = z3.Function
s_mk = SLICE.s_mk


def _acc(k, dec):
    def f(t):
        if z3.is_app(t):
            if t.decl().eq(s_mk):
                return t.arg(k)
            if t.decl().kind() == z3.Z3_OP_ITE:
                a, b = t.arg(1), t.arg(2)
                if any(z3.is_app(x) and (x.decl().eq(s_mk) or x.decl().kind() == z3.Z3_OP_ITE) for x in (a, b)):
                    return ite(t.arg(0), f(a), f(b))
        return dec(t)
    return f


s_ref, s_off, s_len, s_cap = (_acc(k, d) for k, d in enumerate((SLICE.s_ref, SLICE.s_off, SLICE.s_len, SLICE.s_cap)))


def slice_wf(s, alloc=None):
    c = [s_ref(s) >= 0, s_off(s) >= 0, s_len(s) >= 0, s_len(s) <= s_cap(s), s_cap(s) <= MAXLEN, s_off(s) <= MAXLEN,
         z3.Implies(s_ref(s) == 0, s_cap(s) == 0)]
    if alloc is not None:
        c.append(s_ref(s) <= alloc)
    return z3.And(*c)


str_len = F('str_len', STR, INT)
str_at = F('str_at', STR, INT, INT)
str_sub = F('str_sub', STR, INT, INT, STR)
str_cat = F('str_cat', STR, STR, STR)
str_lt = F('str_lt', STR, STR, BOOL)

_fresh = [0]


def serial():
    return _fresh[0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


def freshname(name):
    _fresh[0] += 1
    return '%s!%d' % (name, _fresh[0])


_lits = {}


def strlit(bs):
    bs = bytes(bs)
    if bs not in _lits:
        _lits[bs] = z3.Const('lit_%d_%s' % (len(_lits), ''.join(chr(c) if chr(c).isalnum() else '_' for c in bs[:20])), STR)
    return _lits[bs]


def lit_of(term):
    for b, t in _lits.items():
        if t.eq(term):
            return b
    return None


def is_val(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)


def I(n):
    return z3.IntVal(n)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
           z3.Z3_OP_GT, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF, z3.Z3_OP_XOR}


def badpat(p):
    if z3.is_pattern(p):
        return any(badpat(c) for c in p.children())
    seen, w = set(), [p]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in _BADPAT):
            return True
        w.extend(x.children())
    return False


def FA(vs, body, patterns=()):
    """universal quantification; terms that cannot serve as triggers are dropped"""
    ps = [p for p in patterns if not badpat(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def decls(t, acc=None, seen=None):
    """names of uninterpreted symbols of a term"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    w = [t]
    while w:
        x = w.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            w.append(x.body())
            for k in range(x.num_patterns()):
                w.append(x.pattern(k))
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            w.extend(x.children())
    return acc


def has_quant(t, _cache={}):
    k = t.get_id()
    if k in _cache and _cache[k][1].eq(t):
        return _cache[k][0]
    r, seen, w = False, set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        w.extend(x.children())
    _cache[k] = (r, t)
    return r


# ---------------------------------------------------------------- axioms

def base_axioms():
    """(symbols, axiom, text): axioms of the encoding, added when a symbol occurs"""
    t = z3.Const('t', STR)
    u = z3.Const('u', STR)
    a, b, c, d, i = z3.Ints('a b c d i')
    ax = []
    ax.append(({'str_len'}, z3.ForAll([t], z3.And(str_len(t) >= 0, str_len(t) <= MAXLEN), patterns=[str_len(t)])))
    ax.append(({'str_at'}, z3.ForAll([t, i], z3.And(str_at(t, i) >= 0, str_at(t, i) <= 255), patterns=[str_at(t, i)])))
    ax.append(({'str_sub'}, z3.ForAll([t, a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= str_len(t)),
                                                         str_len(str_sub(t, a, b)) == b - a), patterns=[str_sub(t, a, b)])))
    ax.append(({'str_sub'}, z3.ForAll([t, a, b, i], z3.Implies(z3.And(0 <= a, a <= b, b <= str_len(t), 0 <= i, i < b - a),
                                                            str_at(str_sub(t, a, b), i) == str_at(t, a + i)),
                                      patterns=[str_at(str_sub(t, a, b), i)])))
    ax.append(({'str_cat'}, z3.ForAll([t, u], z3.Implies(str_len(t) + str_len(u) <= MAXLEN, str_len(str_cat(t, u)) == str_len(t) + str_len(u)), patterns=[str_cat(t, u)])))
    ax.append(({'str_cat'}, z3.ForAll([t, u, i], z3.Implies(z3.And(0 <= i, i < str_len(t) + str_len(u), str_len(t) + str_len(u) <= MAXLEN),
              str_at(str_cat(t, u), i) == z3.If(i < str_len(t), str_at(t, i), str_at(u, i - str_len(t)))),
        patterns=[str_at(str_cat(t, u), i)])))
    return ax


def lit_axioms(names):
    out = []
    used = []
    for b, t in _lits.items():
        if t.decl().name() in names:
            used.append(t)
            out.append(str_len(t) == len(b))
            if len(b) <= 32:
                for k, ch in enumerate(b):
                    out.append(str_at(t, I(k)) == ch)
    if len(used) > 1:
        out.append(z3.Distinct(*used))
    return out


# ---------------------------------------------------------------- floats

class FloatUF:
    """Floating point operations as uninterpreted functions (congruence only, plus
    commutativity, exact constant folding and exact power-of-two scaling)."""
    mode = 'uf'

    def __init__(self):
        self.S = {32: z3.DeclareSort('F32'), 64: z3.DeclareSort('F64')}
        self.NAN = {b: z3.Const('nan%d' % b, self.S[b]) for b in (32, 64)}
        self.consts = {}
        self.fns = {}

    def sort(self, bits):
        return self.S[bits]

    def fn(self, name, *sorts):
        if name not in self.fns:
            self.fns[name] = z3.Function(name, *sorts)
        return self.fns[name]

    def const(self, bits, fr):
        fr = Fraction(fr)
        fr = round_to(bits, fr)
        k = (bits, fr)
        if k not in self.consts:
            nm = 'f%d_%s' % (bits, str(fr).replace('/', '_').replace('-', 'm'))
            self.consts[k] = z3.Const(nm, self.S[bits])
        return self.consts[k]

    def cval(self, t):
        for (b, fr), c in self.consts.items():
            if c.eq(t):
                return fr
        return None

    def nan(self, bits):
        return self.NAN[bits]

    def inf(self, bits, sign):
        return z3.Const('inf%d_%s' % (bits, 'p' if sign > 0 else 'm'), self.S[bits])

    def binop(self, op, bits, a, b):
        S = self.S[bits]
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None and not (op == '/' and cb == 0):
            r = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb, '/': lambda: ca / cb}[op]()
            return self.const(bits, r)
        if op == '/' and cb is not None and is_pow2(cb):
            op, b, cb = '*', self.const(bits, 1 / cb), 1 / cb
        if op == '+' and cb is not None and cb < 0:
            op, b = '-', self.const(bits, -cb)
        if op == '*' and (cb == 1):
            return a
        return self.fn('f%d_%s' % (bits, {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]), S, S, S)(a, b)

    def neg(self, bits, a):
        c = self.cval(a)
        if c is not None and c != 0:
            return self.const(bits, -c)
        return self.fn('f%d_neg' % bits, self.S[bits], self.S[bits])(a)

    def isnan(self, bits, a):
        if a.eq(self.NAN[bits]):
            return z3.BoolVal(True)
        if self.cval(a) is not None:
            return z3.BoolVal(False)
        return self.fn('f%d_isnan' % bits, self.S[bits], BOOL)(a)

    def cmp(self, op, bits, a, b):
        S = self.S[bits]
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None:
            return z3.BoolVal({'<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb, '==': ca == cb, '!=': ca != cb}[op])
        if a.eq(self.NAN[bits]) or b.eq(self.NAN[bits]):
            return z3.BoolVal(op == '!=')
        if op == '!=':
            return z3.Not(self.cmp('==', bits, a, b))
        if op == '==':
            if a.eq(b):
                return z3.Not(self.isnan(bits, a))
            return self.fn('f%d_eq' % bits, S, S, BOOL)(a, b)
        if op == '>':
            return self.cmp('<', bits, b, a)
        if op == '>=':
            return self.cmp('<=', bits, b, a)
        return self.fn('f%d_%s' % (bits, 'lt' if op == '<' else 'le'), S, S, BOOL)(a, b)

    def same(self, a, b):
        return a == b

    def from_int(self, bits, x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return self.const(bits, x.as_long())
        return self.fn('f%d_ofint' % bits, INT, self.S[bits])(x)

    def to_int(self, bits, a):
        c = self.cval(a)
        if c is not None:
            return I(int(c))
        return self.fn('f%d_toint' % bits, self.S[bits], INT)(a)

    def conv(self, frm, to, a):
        if frm == to:
            return a
        if a.eq(self.NAN[frm]):
            return self.NAN[to]
        c = self.cval(a)
        if c is not None:
            return self.const(to, c)
        return self.fn('f%d_to%d' % (frm, to), self.S[frm], self.S[to])(a)

    def math(self, name, *args):
        return self.fn('m_' + name, *([self.S[64]] * (len(args) + 1)))(*args)

    def pow10(self, n):
        return self.fn('m_pow10', INT, self.S[64])(n)

    def finite(self, a):
        return z3.BoolVal(True)

    def axioms(self, names):
        out = []
        for bits in (32, 64):
            cs = [c for (b, _), c in self.consts.items() if b == bits and c.decl().name() in names]
            if self.NAN[bits].decl().name() in names:
                cs.append(self.NAN[bits])
            if len(cs) > 1:
                out.append(z3.Distinct(*cs))
            f = 'f%d_isnan' % bits
            if f in names:
                out.append(self.fns[f](self.NAN[bits]))
                out += [z3.Not(self.fns[f](c)) for (b, _), c in self.consts.items() if b == bits]
            x, y = z3.Consts('x y', self.S[bits])
            for op in ('add', 'mul', 'eq'):
                o = 'f%d_%s' % (bits, op)
                if o in names:
                    g = self.fns[o]
                    out.append(z3.ForAll([x, y], g(x, y) == g(y, x), patterns=[g(x, y)]))
            e = 'f%d_eq' % bits
            if e in names:
                x = z3.Const('x', self.S[bits])
                cl = [(v, c) for (b, v), c in self.consts.items() if b == bits]
                for v, c in cl:
                    for w, d in cl:
                        out.append(self.fns[e](c, d) if v == w else z3.Not(self.fns[e](c, d)))
                    out += [z3.Not(self.fns[e](c, self.NAN[bits])), z3.Not(self.fns[e](self.NAN[bits], c))]
        return out


class FloatFP(FloatUF):
    """Bit-precise IEEE 754 arithmetic (SMT theory of floating point, round to nearest
    even). Integer conversions and transcendental functions stay uninterpreted."""
    mode = 'fp'

    def __init__(self):
        self.S = {32: z3.Float32(), 64: z3.Float64()}
        self.fns = {}
        self.rm = z3.RNE()

    def const(self, bits, fr):
        return z3.FPVal(float(Fraction(fr)) if bits == 64 else float(round_to(32, Fraction(fr))), self.S[bits])

    def cval(self, t):
        return None

    def nan(self, bits):
        return z3.fpNaN(self.S[bits])

    def inf(self, bits, sign):
        return z3.fpPlusInfinity(self.S[bits]) if sign > 0 else z3.fpMinusInfinity(self.S[bits])

    def binop(self, op, bits, a, b):
        if op == '/':
            # division by a power of two is multiplication by its reciprocal
            v = z3.simplify(b)
            if z3.is_fp_value(v) and not (v.isNaN() or v.isInf() or v.isZero() or v.isSubnormal()):
                m = Fraction(str(z3.simplify(z3.fpToReal(v))))
                if is_pow2(m) and is_pow2(1 / m):
                    op, b = '*', self.const(bits, 1 / m)
        return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](self.rm, a, b)

    def neg(self, bits, a):
        return z3.fpNeg(a)

    def isnan(self, bits, a):
        return z3.fpIsNaN(a)

    def cmp(self, op, bits, a, b):
        if op == '!=':
            return z3.Not(z3.fpEQ(a, b))
        return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ}[op](a, b)

    def from_int(self, bits, x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return self.const(bits, x.as_long())
        return self.fn('f%d_ofint' % bits, INT, self.S[bits])(x)

    def to_int(self, bits, a):
        return self.fn('f%d_toint' % bits, self.S[bits], INT)(a)

    def conv(self, frm, to, a):
        if frm == to:
            return a
        return z3.fpFPToFP(self.rm, a, self.S[to])

    def axioms(self, names):
        return []


RF = z3.Datatype('RF')
RF.declare('mkF', ('fk', INT), ('fv', REAL))
RF = RF.create()
FIN, NANK, PINF, NINF = 0, 1, 2, 3


class FloatReal(FloatUF):
    """Mathematical semantics: a float is a real number, NaN, +Inf or -Inf; rounding,
    overflow and the sign of zero are ignored."""
    mode = 'real'

    def __init__(self):
        self.S = {32: RF, 64: RF}
        self.fns = {}

    def mk(self, k, v):
        return RF.mkF(k, v)

    def K(self, t):
        if z3.is_app(t) and t.decl().eq(RF.mkF):
            return t.arg(0)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return ite(t.arg(0), self.K(t.arg(1)), self.K(t.arg(2)))
        return RF.fk(t)

    def V(self, t):
        if z3.is_app(t) and t.decl().eq(RF.mkF):
            return t.arg(1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return ite(t.arg(0), self.V(t.arg(1)), self.V(t.arg(2)))
        return RF.fv(t)

    def const(self, bits, fr):
        return self.mk(I(FIN), z3.RealVal(str(round_to(bits, Fraction(fr)))))

    def cval(self, t):
        if z3.is_app(t) and t.decl().eq(RF.mkF) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == 0 and z3.is_rational_value(t.arg(1)):
            return Fraction(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
        return None

    def nan(self, bits):
        return self.mk(I(NANK), z3.RealVal(0))

    def inf(self, bits, sign):
        return self.mk(I(PINF if sign > 0 else NINF), z3.RealVal(0))

    def _k(self, t):
        k = self.K(t)
        return k.as_long() if z3.is_int_value(k) else None

    def binop(self, op, bits, a, b):
        if op == '-':
            return self.binop('+', bits, a, self.neg(bits, b))
        ka, kb, va, vb = self.K(a), self.K(b), self.V(a), self.V(b)
        fin = all(z3.is_true(self.cond(k == FIN)) for k in (ka, kb))
        sg = lambda k, v: z3.If(k == PINF, I(1), z3.If(k == NINF, I(-1), z3.If(v > 0, I(1), z3.If(v < 0, I(-1), I(0)))))
        if op == '+':
            v = va + vb
            k = I(FIN) if fin else z3.If(z3.Or(ka == NANK, kb == NANK), I(NANK), z3.If(ka == FIN, kb, z3.If(z3.Or(kb == FIN, ka == kb), ka, I(NANK))))
        elif op == '*':
            v = va * vb
            s = lambda: sg(ka, va) * sg(kb, vb)
            k = I(FIN) if fin else z3.If(z3.Or(ka == NANK, kb == NANK), I(NANK), z3.If(z3.And(ka == FIN, kb == FIN), I(FIN),
                                         z3.If(s() > 0, I(PINF), z3.If(s() < 0, I(NINF), I(NANK)))))
        else:
            if z3.is_false(self.cond(vb == 0)):
                v = va / vb
                kf = I(FIN)
            else:
                v = z3.If(vb == 0, z3.RealVal(0), va / vb)
                kf = z3.If(vb != 0, I(FIN), z3.If(va > 0, I(PINF), z3.If(va < 0, I(NINF), I(NANK))))
            if fin:
                k = kf
            else:
                s = sg(ka, va) * z3.If(sg(kb, vb) < 0, I(-1), I(1))
                k = z3.If(z3.Or(ka == NANK, kb == NANK), I(NANK), z3.If(z3.And(ka == FIN, kb == FIN), kf, z3.If(kb == FIN,
                          z3.If(s > 0, I(PINF), I(NINF)), z3.If(ka == FIN, I(FIN), I(NANK)))))
                v = z3.If(kb == FIN, v, z3.RealVal(0))
        ca = z3.simplify(k)
        return self.mk(ca, v)

    def neg(self, bits, a):
        k = self.K(a)
        if self._k(a) is None:
            k = z3.If(k == PINF, I(NINF), z3.If(k == NINF, I(PINF), k))
        elif self._k(a) in (PINF, NINF):
            k = I(PINF + NINF - self._k(a))
        return self.mk(k, -self.V(a))

    def isnan(self, bits, a):
        return z3.simplify(self.K(a) == NANK)

    def cmp(self, op, bits, a, b):
        if op == '!=':
            return z3.Not(self.cmp('==', bits, a, b))
        if op == '>':
            return self.cmp('<', bits, b, a)
        if op == '>=':
            return self.cmp('<=', bits, b, a)
        ka, kb, va, vb = self.K(a), self.K(b), self.V(a), self.V(b)
        if self._k(a) == FIN and self._k(b) == FIN:
            return self.cond({'<': va < vb, '<=': va <= vb, '==': va == vb}[op])
        ok = z3.And(ka != NANK, kb != NANK)
        if op == '==':
            return z3.simplify(z3.And(ok, ka == kb, z3.Implies(ka == FIN, va == vb)))
        fin = {'<': va < vb, '<=': va <= vb}[op]
        eqi = z3.BoolVal(op == '<=')
        r = z3.If(z3.And(ka == FIN, kb == FIN), fin,
                  z3.If(ka == kb, eqi, z3.Or(ka == NINF, kb == PINF)))
        return z3.simplify(z3.And(ok, r))

    def same(self, a, b):
        ka, kb = self.K(a), self.K(b)
        return z3.simplify(z3.And(ka == kb, z3.Implies(ka == FIN, self.V(a) == self.V(b))))

    def from_int(self, bits, x):
        return self.mk(I(FIN), z3.ToReal(x))

    def trunc(self, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def to_int(self, bits, a):
        und = self.fn('toint_undefined', RF, INT)
        return ite(z3.simplify(self.K(a) == FIN), self.trunc(self.V(a)), und(a))

    def conv(self, frm, to, a):
        return a

    def truth(self, c):
        """value of a condition on closed terms, if interval arithmetic decides it"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return reals.decide(c)

    ctx = None      # (executor, state) while an instruction is executed

    def cond(self, c):
        r = self.truth(c)
        if r is None and self.ctx is not None and not has_var(c):
            ex, st = self.ctx
            if not ex.dry and not ex.in_init:
                c = z3.simplify(c)
                if ex.entails(st, c, 250):
                    r = True
                elif ex.entails(st, z3.Not(c), 250):
                    r = False
        return c if r is None else z3.BoolVal(r)

    def ground_facts(self, forms, order=True):
        return reals.facts(forms, order)

    def rfn(self, name, n):
        return self.fn('r_' + name, *([REAL] * (n + 1)))

    def math(self, name, *args):
        """transcendental functions on the reals"""
        vs = [self.V(a) for a in args]
        fin = z3.simplify(z3.And(*[self.cond(self.K(a) == FIN) for a in args]))
        f = self.rfn(name, len(args))
        if name in ('sin', 'cos', 'tan'):
            # (the tangent's poles are no representable numbers)
            return self.sel(fin, self.mk(I(FIN), f(*vs)), self.nan(64))
        if name == 'pow':
            # bases that are not positive, and arguments that are not finite, are left open
            oth = self.fn('m_pow_special', RF, RF, RF)(*args)
            return self.sel(z3.And(fin, self.cond(vs[0] > 0)), self.mk(I(FIN), f(*vs)), oth)
        if name == 'exp':
            k = self.K(args[0])
            return self.sel(fin, self.mk(I(FIN), f(*vs)), self.sel(k == NINF, self.const(64, 0), args[0]))
        if name == 'exp2':
            return self.math('pow', self.const(64, 2), args[0])
        if name == 'sqrt':
            k = self.K(args[0])
            return self.sel(z3.And(fin, self.cond(vs[0] >= 0)), self.mk(I(FIN), f(*vs)), self.sel(k == PINF, args[0], self.nan(64)))
        if name in ('log', 'log10', 'log2', 'log1p'):
            x, k, ln = vs[0], self.K(args[0]), self.rfn('log', 1)
            if name == 'log1p':
                x = x + 1
            v = ln(x) if name in ('log', 'log1p') else ln(x) / ln(z3.RealVal(10 if name == 'log10' else 2))
            return self.sel(z3.And(fin, self.cond(x > 0)), self.mk(I(FIN), v),
                            self.sel(z3.And(fin, self.cond(x == 0)), self.inf(64, -1),
                                     self.sel(k == PINF, self.inf(64, 1), self.nan(64))))
        if name == 'mod':
            x, y = vs
            q = self.trunc(x / y)
            k = self.K(args[0])
            return self.sel(z3.And(fin, y != 0), self.mk(I(FIN), x - y * z3.ToReal(q)),
                            self.sel(z3.And(k == FIN, self.K(args[1]) != NANK, self.K(args[1]) != FIN), args[0], self.nan(64)))
        if name == 'abs':
            k = self.K(args[0])
            return self.mk(z3.simplify(z3.If(k == NINF, I(PINF), k)), z3.If(vs[0] >= 0, vs[0], -vs[0]))
        if name == 'floor':
            return self.sel(fin, self.mk(I(FIN), z3.ToReal(z3.ToInt(vs[0]))), args[0])
        if name == 'trunc':
            return self.sel(fin, self.mk(I(FIN), z3.ToReal(self.trunc(vs[0]))), args[0])
        if name in ('max', 'min'):
            a, b = args
            c = self.cmp('>' if name == 'max' else '<', 64, a, b)
            return self.sel(z3.Or(self.isnan(64, a), self.isnan(64, b)), self.nan(64), self.sel(c, a, b))
        return self.fn('m_' + name, *([RF] * (len(args) + 1)))(*args)

    def sel(self, c, a, b):
        c = z3.simplify(c)
        return self.mk(z3.simplify(ite(c, self.K(a), self.K(b))), ite(c, self.V(a), self.V(b)))

    def pow10(self, n):
        return self.mk(I(FIN), self.rfn('pow', 2)(z3.RealVal(10), z3.ToReal(n)))

    def finite(self, a):
        return z3.simplify(self.K(a) == FIN)

    def axioms(self, names):
        return []


def is_pow2(fr):
    fr = abs(Fraction(fr))
    n, d = fr.numerator, fr.denominator
    return fr != 0 and (n & (n - 1)) == 0 and (d & (d - 1)) == 0 and n < 2 ** 60 and d < 2 ** 60


def round_to(bits, fr):
    import struct
    f = float(fr) if abs(fr) < 2 ** 1000 else None
    if f is None:
        return fr
    if bits == 32:
        # correct single rounding: check that double rounding is harmless
        g = struct.unpack('f', struct.pack('f', f))[0]
        return Fraction(g)
    return Fraction(f)


_hv = {}


def has_var(t):
    """contains free de Bruijn variables (i.e. occurs under a quantifier)"""
    i = t.get_id()
    c = _hv.get(i)
    if c is not None and c[0].eq(t):
        return c[1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True if has_var_quant(t) else False
    else:
        r = any(has_var(c) for c in t.children())
    _hv[i] = (t, r)
    return r


def has_var_quant(q):
    # variables bound inside do not count; be conservative
    n = q.num_vars()

    def go(t, d, seen):
        if z3.is_var(t):
            return z3.get_var_index(t) >= d
        if z3.is_quantifier(t):
            return go(t.body(), d + t.num_vars(), {})
        k = t.get_id()
        if k in seen:
            return seen[k]
        r = any(go(c, d, seen) for c in t.children())
        seen[k] = r
        return r
    return go(q.body(), n, {})
