"""Normal forms of real terms: quotients of polynomials over atoms.

Used to decide comparisons that hold by rearranging (`x/y*y == x`), or whose difference
normalises to a closed term, which interval arithmetic then decides. Every divisor met on
the way is reported as a side condition (it has to be shown different from zero)."""
from fractions import Fraction
import z3
from . import reals
from mpmath import iv

LIMIT = 4000


class TooBig(Exception):
    pass


class Field:
    def __init__(self, tol=None):
        self.tol = tol          # constants this close (relatively) are taken for roundings of the same number
        self.keys = []
        self.atoms = {}         # key -> index
        self.terms = []         # index -> a z3 term it stands for
        self.memo = {}
        self.divs = {}          # divisors (z3 terms), by id

    # ------------------------------------------------ polynomials {((atom, power), ...): coefficient}

    @staticmethod
    def pconst(c):
        return {(): c} if c else {}

    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            o = r.get(m, 0)
            v = o + k * c
            if v and self.tol and o and abs(v) <= self.tol * abs(c):
                v = 0
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > LIMIT * 8:
            raise TooBig
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for x, k in n:
                    e[x] = e.get(x, 0) + k
                k = tuple(sorted(e.items()))
                o = r.get(k, 0)
                v = o + c * d
                if v and self.tol and o and abs(v) <= self.tol * abs(o):
                    v = 0
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig
        return r

    @staticmethod
    def pkey(a):
        return tuple(sorted(a.items()))

    def same(self, a, b):
        if a.keys() != b.keys():
            return False
        if not self.tol:
            return a == b
        return all(abs(c - b[m]) <= self.tol * max(abs(c), abs(b[m])) for m, c in a.items())

    def reduce(self, r):
        """cancels powers common to all monomials and scales the denominator"""
        n, d = r
        if not n:
            return {}, {(): Fraction(1)}
        common = None
        for p in (n, d):
            for m in p:
                e = dict(m)
                common = e if common is None else {x: min(k, e[x]) for x, k in common.items() if x in e}
                if not common:
                    break
            if not common:
                break
        if common:
            cut = lambda p: {tuple((x, k - common.get(x, 0)) for x, k in m if k > common.get(x, 0)): c for m, c in p.items()}
            n, d = cut(n), cut(d)
        lead = d[min(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if self.same(n, d):
            return {(): Fraction(1)}, {(): Fraction(1)}
        return n, d

    def add(self, a, b, k=1):
        if self.same(a[1], b[1]):
            return self.reduce((self.padd(a[0], b[0], k), a[1]))
        return self.reduce((self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), k), self.pmul(a[1], b[1])))

    def mul(self, a, b):
        n1, d1 = a
        n2, d2 = b
        if self.same(n1, d2):
            return self.reduce((n2, d1))
        if self.same(n2, d1):
            return self.reduce((n1, d2))
        return self.reduce((self.pmul(n1, n2), self.pmul(d1, d2)))

    def atom(self, key, t):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.terms)
            self.terms.append(t)
        return {((i, 1),): Fraction(1)}, {(): Fraction(1)}

    # ------------------------------------------------ terms

    def norm(self, t):
        i = t.get_id()
        c = self.memo.get(i)
        if c is not None:
            return c[1]
        r = self.norm1(t)
        self.memo[i] = (t, r)
        return r

    def norm1(self, t):
        one = {(): Fraction(1)}
        if z3.is_int_value(t):
            return self.pconst(Fraction(t.as_long())), one
        if z3.is_rational_value(t):
            return self.pconst(Fraction(t.numerator_as_long(), t.denominator_as_long())), one
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.norm(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.norm(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.mul((self.pconst(Fraction(-1)), one), self.norm(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for x in ch[1:]:
                r = self.mul(r, self.norm(x))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            if not b[0]:
                return self.atom(('raw', t.get_id()), t)
            if not self.pisconst(b[0]):
                self.divs[ch[1].get_id()] = ch[1]
            return self.mul(a, (b[1], b[0]))
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and ch and t.decl().name() in reals.FNS:
            args = [self.norm(x) for x in ch]
            key = (t.decl().name(),) + tuple((self.pkey(n), self.pkey(d)) for n, d in args)
            if self.tol and key not in self.atoms:
                for k2, n2, a2 in self.keys:
                    if n2 == key[0] and all(self.same(x[0], y[0]) and self.same(x[1], y[1]) for x, y in zip(args, a2)):
                        key = k2
                        break
                else:
                    self.keys.append((key, key[0], args))
            return self.atom(key, t)
        return self.atom(('raw', t.get_id()), t)

    @staticmethod
    def pisconst(p):
        return all(m == () for m in p)

    def enclose(self, r):
        """interval of a normal form over closed atoms, or None"""
        def ev(p):
            s = iv.mpf(0)
            for m, c in p.items():
                v = reals.rat(c)
                for x, k in m:
                    t = self.terms[x]
                    if not reals.closed(t):
                        return None
                    e = reals.enclose(t)
                    if e is None:
                        return None
                    v = v * e ** k
                s = s + v
            return s
        n, d = ev(r[0]), ev(r[1])
        if n is None or d is None or 0 in d:
            return None
        return n / d

    def compare(self, c):
        """truth of a comparison, given that the recorded divisors are not zero; or None"""
        if z3.is_not(c):
            r = self.compare(c.arg(0))
            return None if r is None else not r
        if not (z3.is_app(c) and c.num_args() == 2 and z3.is_arith(c.arg(0)) and c.arg(0).sort() == z3.RealSort()):
            return None
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            return None
        r = self.add(self.norm(c.arg(0)), self.norm(c.arg(1)), -1)
        if not r[0]:
            return k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ)
        e = self.enclose(r)
        if e is None or (e.a <= 0 and e.b >= 0):
            return None
        pos = e.a > 0
        return {z3.Z3_OP_LT: not pos, z3.Z3_OP_LE: not pos, z3.Z3_OP_GT: pos, z3.Z3_OP_GE: pos, z3.Z3_OP_EQ: False, z3.Z3_OP_DISTINCT: True}[k]


TOL = Fraction(1, 10 ** 12)


def near(a, b, nonzero):
    """a and b are the same expression up to rounding of the constants in them"""
    try:
        f = Field(TOL)
        r = f.add(f.norm(a), f.norm(b), -1)
        return not r[0] and all(nonzero(d) for d in f.divs.values())
    except TooBig:
        return False


def conditions(t):
    """conditions of the conditional terms of t, innermost last"""
    acc, seen, w = {}, set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            acc[x.arg(0).get_id()] = x.arg(0)
        w.extend(x.children())
    return list(acc.values())


def prove(goal, nonzero, holds):
    """goal by normal forms. nonzero(t), holds(c): obligations handed back to the solvers"""
    try:
        for _ in range(6):
            cs = conditions(goal)
            if not cs:
                break
            for c in reversed(cs):
                f = Field()
                try:
                    r = f.compare(c)
                except TooBig:
                    r = None
                if r is not None and all(nonzero(d) for d in f.divs.values()):
                    pass
                elif holds(c):
                    r = True
                elif holds(z3.Not(c)):
                    r = False
                else:
                    continue
                goal = z3.substitute(goal, (c, z3.BoolVal(r)))
            goal = ites(goal)
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_UNINTERPRETED and goal.decl().name() == 'near' and goal.num_args() == 2:
            return near(goal.arg(0), goal.arg(1), nonzero)
        f = Field()
        return f.compare(goal) is True and all(nonzero(d) for d in f.divs.values())
    except TooBig:
        return False


def ites(t, memo=None):
    """resolves conditionals on constants, leaving everything else alone"""
    memo = {} if memo is None else memo
    if not z3.is_app(t) or not t.num_args():
        return t
    if t.get_id() in memo:
        return memo[t.get_id()][1]
    if t.decl().kind() == z3.Z3_OP_ITE and z3.is_true(t.arg(0)):
        r = ites(t.arg(1), memo)
    elif t.decl().kind() == z3.Z3_OP_ITE and z3.is_false(t.arg(0)):
        r = ites(t.arg(2), memo)
    else:
        old = t.children()
        new = [ites(x, memo) for x in old]
        r = t if all(x.eq(y) for x, y in zip(old, new)) else t.decl()(*new)
    memo[t.get_id()] = (t, r)
    return r
