"""Symbolic values, symbolic states and the merging of states at join points."""
import z3
from . import smt
from .smt import ite, I


class Unmergeable(Exception):
    pass


class V:
    """non-SMT value"""


class VStruct(V):
    def __init__(self, t, vals):
        self.t, self.vals = t, list(vals)

    def __repr__(self):
        return 'struct%r' % (self.vals,)


class VArr(V):
    def __init__(self, t, vals):
        self.t, self.vals = t, list(vals)


class VTuple(V):
    def __init__(self, vals):
        self.vals = list(vals)


class PCell(V):
    """pointer into a local cell"""
    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path


class PField(V):
    """address of a (nested) field of a heap struct"""
    def __init__(self, st, ref, path):
        self.st, self.ref, self.path = st, ref, path


class PElem(V):
    """address of a (field of a) slice element"""
    def __init__(self, et, ref, idx, path=()):
        self.et, self.ref, self.idx, self.path = et, ref, idx, path


class PGlob(V):
    def __init__(self, name, path=()):
        self.name, self.path = name, path


class PArr(V):
    """pointer to a heap array"""
    def __init__(self, et, ref, n):
        self.et, self.ref, self.n = et, ref, n


class CellSlice(V):
    """slice of a local array of interfaces or functions"""
    def __init__(self, cell, lo, hi):
        self.cell, self.lo, self.hi = cell, lo, hi


class FnRef(V):
    def __init__(self, name):
        self.name = name


class Closure(V):
    def __init__(self, name, binds):
        self.name, self.binds = name, list(binds)


class FnSym(V):
    """unknown pure function (a parameter of function type)"""
    def __init__(self, name, sig):
        self.name, self.sig = name, sig


class FnIte(V):
    """function value selected by disjoint conditions"""
    def __init__(self, alts):
        self.alts = alts


class VIface(V):
    """interface value: SMT identity plus (when known) dynamic type and value"""
    def __init__(self, term, dt=None, val=None):
        self.term, self.dt, self.val = term, dt, val


class VIter(V):
    def __init__(self, kind, coll, pos, t):
        self.kind, self.coll, self.pos, self.t = kind, coll, pos, t


class Poison(V):
    def __init__(self, why):
        self.why = why


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (VStruct, VArr, VTuple)):
        return len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, PCell):
        return a.cell == b.cell and samepath(a.path, b.path)
    if isinstance(a, PField):
        return a.st == b.st and a.ref.eq(b.ref) and a.path == b.path
    if isinstance(a, PElem):
        return a.et == b.et and a.ref.eq(b.ref) and a.idx.eq(b.idx) and a.path == b.path
    if isinstance(a, PGlob):
        return a.name == b.name and samepath(a.path, b.path)
    if isinstance(a, PArr):
        return a.et == b.et and a.ref.eq(b.ref) and a.n == b.n
    if isinstance(a, CellSlice):
        return (a.cell, a.lo, a.hi) == (b.cell, b.lo, b.hi)
    if isinstance(a, (FnRef,)):
        return a.name == b.name
    if isinstance(a, FnSym):
        return a.name == b.name
    if isinstance(a, Closure):
        return a.name == b.name and len(a.binds) == len(b.binds) and all(same(x, y) for x, y in zip(a.binds, b.binds))
    if isinstance(a, VIface):
        return a.term.eq(b.term)
    if isinstance(a, VIter):
        return a.kind == b.kind and same(a.coll, b.coll) and same(a.pos, b.pos)
    return False


def samepath(p, q):
    return len(p) == len(q) and all((x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)) for x, y in zip(p, q))


def mergev(c, a, b):
    """if c then a else b"""
    if same(a, b):
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            raise Unmergeable('sorts')
        return ite(c, a, b)
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if type(a) is type(b):
        if isinstance(a, (VStruct, VArr)) and len(a.vals) == len(b.vals):
            return type(a)(a.t, [mergev(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, VTuple) and len(a.vals) == len(b.vals):
            return VTuple([mergev(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, VIface):
            if a.dt == b.dt and a.dt is not None:
                try:
                    return VIface(ite(c, a.term, b.term), a.dt, mergev(c, a.val, b.val))
                except Unmergeable:
                    pass
            return VIface(ite(c, a.term, b.term))
        if isinstance(a, PField) and a.st == b.st and a.path == b.path:
            return PField(a.st, ite(c, a.ref, b.ref), a.path)
        if isinstance(a, PElem) and a.et == b.et and a.path == b.path:
            return PElem(a.et, ite(c, a.ref, b.ref), ite(c, a.idx, b.idx), a.path)
        if isinstance(a, VIter) and a.kind == b.kind and same(a.coll, b.coll):
            return VIter(a.kind, a.coll, mergev(c, a.pos, b.pos), a.t)
    raise Unmergeable('%r / %r' % (type(a), type(b)))


class State:
    __slots__ = ('regs', 'cells', 'heap', 'alloc', 'path', 'defers', 'dead')

    def __init__(self):
        self.regs, self.cells, self.heap = {}, {}, {}
        self.alloc = None
        self.path = []          # list of ('b'|'f', term)
        self.defers = []

    def copy(self):
        s = State()
        s.regs, s.cells, s.heap = dict(self.regs), dict(self.cells), dict(self.heap)
        s.alloc, s.path, s.defers = self.alloc, list(self.path), list(self.defers)
        return s

    def assume(self, t, kind='f'):
        if z3.is_true(t):
            return self
        self.path.append((kind, t))
        return self

    def facts(self):
        return [t for _, t in self.path]


def conj(ts):
    ts = [t for t in ts if not z3.is_true(t)]
    if not ts:
        return z3.BoolVal(True)
    return ts[0] if len(ts) == 1 else z3.And(*ts)


def big(t, n=14):
    seen, w = set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return True
        w.extend(x.children())
    return False


def merge(a, b, live=None, h0=None):
    """merges two states into one; raises Unmergeable"""
    n = 0
    m = min(len(a.path), len(b.path))
    while n < m and (a.path[n] is b.path[n] or (a.path[n][0] == b.path[n][0] and a.path[n][1].eq(b.path[n][1]))):
        n += 1
    sa, sb = a.path[n:], b.path[n:]
    ga = conj([t for k, t in sa if k == 'b'])
    gb = conj([t for k, t in sb if k == 'b'])
    if z3.is_true(ga) and z3.is_true(gb):
        raise Unmergeable('no distinguishing branch')
    # prefer the simpler guard as the selector
    neg = z3.is_true(ga)
    out = State()
    out.path = a.path[:n]
    for k, t in sa + sb:
        if k == 'd':
            out.path.append((k, t))
    g = z3.simplify(z3.Or(ga, gb))
    if not z3.is_true(g):
        out.path.append(('b', g))
    if big(gb if neg else ga):
        nm = smt.fresh("br", z3.BoolSort())
        out.path.append(('d', nm == (gb if neg else ga)))
        if neg:
            gb = nm
        else:
            ga = nm
    c = z3.Not(gb) if neg else ga
    for k, t in sa:
        if k == 'f':
            out.path.append(('f', t if z3.is_true(ga) else z3.Implies(ga, t)))
    for k, t in sb:
        if k == 'f':
            out.path.append(('f', t if z3.is_true(gb) else z3.Implies(gb, t)))
    out.defers = a.defers
    if len(a.defers) != len(b.defers):
        raise Unmergeable('defers')
    for r in (live if live is not None else set(a.regs) & set(b.regs)):
        if r in a.regs and r in b.regs:
            out.regs[r] = mergev(c, a.regs[r], b.regs[r])
    for k in set(a.cells) | set(b.cells):
        if k in a.cells and k in b.cells:
            try:
                out.cells[k] = mergev(c, a.cells[k], b.cells[k])
            except Unmergeable as e:
                out.cells[k] = Poison('cell merge: %s' % e)
        else:
            out.cells[k] = a.cells.get(k, b.cells.get(k))
    for k in set(a.heap) | set(b.heap):
        va = a.heap[k] if k in a.heap else h0(k)
        vb = b.heap[k] if k in b.heap else h0(k)
        out.heap[k] = mergev(c, va, vb)
    out.alloc = ite(c, a.alloc, b.alloc)
    return out
