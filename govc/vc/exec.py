"""Symbolic execution of SSA functions against contracts: generates the proof
obligations. Every function is executed once for all inputs; loops are cut at their
headers with invariants (given, or inferred and checked inductively); callees that have
a contract are used through it, other callees of the verified packages are executed in
place."""
import time
import z3
from fractions import Fraction
from . import smt
from .smt import (INT, BOOL, STR, SLICE, I, ite, s_ref, s_off, s_len, s_cap, s_mk, str_len, str_at, str_sub, str_cat,
                  MAXLEN, fresh, slice_wf)
from .state import *
from .ir import Unsupported, operands
from .prove import Prover, strip

INTS = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'rune': (32, True), 'int64': (64, True),
        'uint': (64, False), 'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False), 'uint32': (32, False),
        'uint64': (64, False), 'uintptr': (64, False), 'untyped int': (64, True), 'untyped rune': (32, True)}
FLTS = {'float32': 32, 'float64': 64, 'untyped float': 64}
OPAQUE = {'time.Time'}
AND, OR, NOT, IMP, FA = z3.And, z3.Or, z3.Not, z3.Implies, smt.FA

idiv = z3.Function('idiv', INT, INT, INT)
imod = z3.Function('imod', INT, INT, INT)


def rng(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


class Obligation:
    __slots__ = ('fn', 'kind', 'name', 'props', 'path', 'goal', 'pos', 'status', 'time', 'detail', 'model', 'solver')

    def __init__(self, fn, kind, name, props, path, goal, pos):
        self.fn, self.kind, self.name, self.props, self.path, self.goal, self.pos = fn, kind, name, props, path, goal, pos
        self.status, self.time, self.detail, self.model, self.solver = None, 0, '', None, ''


class Frame:
    def __init__(self, fn, depth, top):
        self.fn, self.depth, self.top = fn, depth, top
        self.rets = []
        self.cellnames = {}


class Top:
    """what is being verified: contract, entry state and environment"""
    def __init__(self, fn, contract, entry, env):
        self.fn, self.contract, self.entry, self.env = fn, contract, entry, env


def literal(v):
    return z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v)


class Executor:
    MAXDEPTH = 8

    def __init__(self, prog, specs, fm, log=None):
        self.prog, self.specs, self.T, self.fm = prog, specs, prog.types, fm
        self.base = {}
        self.region_axioms = {}
        self.bnd = {}
        self.obs = []
        self.quiet = 0
        self.ncell = 0
        self.prover = Prover(self)
        self.const_maps = {}
        self.globals_val = {}
        self.initcells = {}
        self.initheap = {}
        self.initrefs = {}
        self.h0keys = {}
        self.oldrefs, self.newrefs = {}, {}
        self.K = 0
        self.writelog = None
        self.log = log or (lambda *a: None)
        self.notes = []
        self.loop_stats = []
        self.in_init = False
        self.dry = False
        self.debug = False
        self.loopfail = {}
        self.curframe = None
        self.top = None
        self._tm = None
        self.axcache = {}
        self.callstack = []
        self.loopdepth = 0
        self.used_contracts = set()
        self.itecache = {}
        self.used_ext = set()
        self.inlined = set()
        self.named_cells = {}
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------ types

    def kind(self, t):
        if t in OPAQUE or t == 'seq' or t == 'stream':
            return 'opaque'
        d = self.T.u(t)
        if d is None:
            return 'other'
        k = d['k']
        if k == 'basic':
            n = d['name']
            if n in INTS:
                return 'int'
            if n in FLTS:
                return 'float'
            if n in ('bool', 'untyped bool'):
                return 'bool'
            if n in ('string', 'untyped string'):
                return 'string'
            if n == 'untyped nil':
                return 'nil'
            return 'other'
        return k

    def intinfo(self, t):
        return INTS[self.T.u(t)['name']]

    def fbits(self, t):
        return FLTS[self.T.u(t)['name']]

    def sort(self, t):
        k = self.kind(t)
        if k == 'int':
            return INT
        if k == 'bool':
            return BOOL
        if k == 'float':
            return self.fm.sort(self.fbits(t))
        if k == 'string':
            return STR
        if k == 'slice':
            return SLICE
        if k in ('ptr', 'map', 'iface', 'chan', 'nil'):
            return INT
        if k == 'opaque':
            return smt.opaque(t)
        if k == 'func':
            return smt.FUNCS
        raise Unsupported('no SMT sort for type ' + t)

    def elem(self, t):
        return self.T.norm(self.T.u(t)['e'])

    def fields(self, t):
        return self.T.u(t)['f'] or []

    def leaves(self, t):
        t = self.T.norm(t)
        k = self.kind(t)
        if k == 'struct':
            out = []
            for i, (n, ft) in enumerate(self.fields(t)):
                out += [((i,) + p, lt) for p, lt in self.leaves(ft)]
            return out
        if k == 'array':
            n = self.T.u(t)['n']
            if n > 16:
                raise Unsupported('large array value in the heap: ' + t)
            return [((i,) + p, lt) for i in range(n) for p, lt in self.leaves(self.elem(t))]
        return [((), t)]

    def is_heap_struct(self, t):
        """struct types whose objects live in the symbolic heap"""
        t = self.T.norm(t)
        return t in self.prog.heap_structs

    # ------------------------------------------------------------ heap

    def region_sort(self, key):
        if key[0] == 'F':
            return z3.ArraySort(INT, self.sort(key[3]))
        if key[0] == 'E':
            return z3.ArraySort(INT, z3.ArraySort(INT, self.sort(key[3])))
        if key[0] == 'MD':
            return z3.ArraySort(INT, z3.ArraySort(self.sort(self.T.u(key[1])['key']), BOOL))
        if key[0] == 'MV':
            return z3.ArraySort(INT, z3.ArraySort(self.sort(self.T.u(key[1])['key']), self.sort(key[3])))
        if key[0] == 'G':
            return self.ext.GHOST[key[1]]
        raise KeyError(key)

    def region_name(self, key):
        if key[0] == 'G':
            return 'G.' + key[1]
        nm = key[1].split('/')[-1]
        if key[0] == 'F':
            p, t = [], key[1]
            for i in key[2]:
                if self.kind(t) == 'struct':
                    f = self.fields(t)[i]
                    p.append(f[0])
                    t = f[1]
                else:
                    p.append(str(i))
                    t = self.elem(t)
            return 'H.' + nm + '.' + '.'.join(p)
        return key[0] + '.' + nm + ('' if len(key) < 3 or not key[2] else '.' + '.'.join(map(str, key[2])))

    def new_region(self, key, tag, alloc):
        """fresh region symbol with the typing axioms of its leaves"""
        nm = self.region_name(key) + tag
        c = z3.Const(nm, self.region_sort(key))
        if nm in self.region_axioms:
            return c
        r, i = z3.Ints('r! i!')
        ax = []
        if key[0] == 'F':
            term, vs = z3.Select(c, r), [r]
            lt = key[3]
        elif key[0] == 'E':
            term, vs = z3.Select(z3.Select(c, r), i), [r, i]
            lt = key[3]
        else:
            lt = None
        if lt is not None:
            f = self.typefact(term, lt, alloc, int64=False)
            if f is not None:
                ax.append(FA(vs, f, patterns=[term]))
        self.region_axioms[nm] = ax
        return c

    def typefact(self, term, t, alloc, int64=True):
        k = self.kind(t)
        if k == 'int':
            b, s = self.intinfo(t)
            lo, hi = rng(b, s)
            return AND(term >= lo, term <= hi)
        if k == 'slice':
            return slice_wf(term, alloc)
        if k == 'float' and self.fm.mode == 'real':
            return AND(self.fm.K(term) >= 0, self.fm.K(term) <= 3)
        if k in ('ptr', 'map', 'iface'):
            return AND(term >= 0, term <= alloc) if alloc is not None else term >= 0
        return None

    def h0(self, key):
        if key not in self.base:
            self.base[key] = self.new_region(key, '', z3.Int('alloc0'))
            if key[0] not in ('MD', 'MV'):
                self.h0keys[self.base[key].get_id()] = key
        return self.base[key]

    def h0m(self, key):
        """value of a region a state has not written"""
        if self.in_init:
            return z3.Const(self.region_name(key) + '@init', self.region_sort(key))
        return self.h0(key)

    def reg(self, st, key):
        v = st.heap.get(key)
        if v is None:
            if self.in_init:
                v = z3.Const(self.region_name(key) + '@init', self.region_sort(key))
                st.heap[key] = v
            else:
                v = self.h0(key)
        return v

    def setbnd(self, term, t):
        k = self.kind(t)
        if k == 'int':
            b, s = self.intinfo(t)
            lo, hi = rng(b, s)
            self.bnd.setdefault(term.get_id(), (term, lo, hi))
        return term

    def sel(self, a, i):
        """select with syntactic simplification"""
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).eq(i):
                return a.arg(2)
            d = self.distinct(a.arg(1), i)
            if d:
                a = a.arg(0)
            else:
                break
        if not self.in_init:
            v = self.initial(a, i)
            if v is not None:
                return v
        return z3.Select(a, i)

    def initial(self, a, i):
        """literal contents of objects the package initialisers created, in the memory at entry (see Session.entry)"""
        if not (z3.is_app(a) and a.sort().domain() == INT):
            return None
        i = z3.simplify(i)
        if not z3.is_int_value(i):
            return None
        if a.decl().kind() == z3.Z3_OP_SELECT and z3.is_int_value(a.arg(1)):
            key = self.h0keys.get(a.arg(0).get_id())
            row = self.initrefs.get(key, {}).get(a.arg(1).as_long()) if key else None
            while row is not None and z3.is_app(row) and row.decl().kind() == z3.Z3_OP_STORE:
                if z3.is_int_value(row.arg(1)):
                    if row.arg(1).eq(i):
                        return row.arg(2) if literal(row.arg(2)) else None
                    row = row.arg(0)
                else:
                    return None
            if row is not None and z3.is_K(row) and literal(row.arg(0)):
                return row.arg(0)
            return None
        key = self.h0keys.get(a.get_id())
        v = self.initrefs.get(key, {}).get(i.as_long()) if key else None
        return v if v is not None and literal(v) else None

    def distinct(self, x, y):
        if x.get_id() in self.newrefs and y.get_id() in self.oldrefs or x.get_id() in self.oldrefs and y.get_id() in self.newrefs:
            return True
        d = z3.simplify(x - y) if x.sort() == INT else None
        if d is not None:
            return z3.is_int_value(d) and d.as_long() != 0
        bx, by = smt.lit_of(x) if x.sort() == STR else None, smt.lit_of(y) if x.sort() == STR else None
        return bx is not None and by is not None and bx != by

    def upd(self, a, i, v):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(i):
            return z3.Store(a.arg(0), i, v)
        return z3.Store(a, i, v)

    def rd_leaf(self, st, key, ref, idx=None):
        a = self.sel(self.reg(st, key), ref)
        if idx is None and key in self.initrefs and z3.is_select(a) and z3.is_int_value(a.arg(1)) and a.arg(0).eq(self.h0(key)):
            # an object made by the package initialisers, as it was on entry
            a = self.initrefs[key].get(a.arg(1).as_long(), a)
        if idx is not None:
            a = self.sel(a, idx)
        if key[0] in 'FE':
            self.setbnd(a, key[3])
        return a

    def wr_leaf(self, st, key, ref, v, idx=None):
        a = self.reg(st, key)
        if idx is None:
            st.heap[key] = self.upd(a, ref, v)
        else:
            st.heap[key] = self.upd(a, ref, self.upd(self.sel(a, ref), idx, v))

    def wrap(self, t, term):
        """SMT leaf term -> value"""
        if self.kind(t) == 'iface':
            return VIface(term)
        if self.kind(t) == 'func':
            return FnSym(str(term), t)
        return term

    def unwrap(self, st, v, t):
        """value -> SMT leaf term"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, VIface):
            return v.term
        if isinstance(v, (FnRef, Closure, FnSym)):
            nm = 'fn:' + (v.name if not isinstance(v, Closure) else v.name + '#%d' % id(v))
            return z3.Const(nm, smt.FUNCS)
        if isinstance(v, PField) and v.path == ():
            return v.ref
        raise Unsupported('value of kind %s stored where only SMT terms fit' % type(v).__name__)

    def rd(self, st, mk, t, base=()):
        """value of type t; mk(path, leaftype) gives the leaf terms"""
        k = self.kind(t)
        if k == 'struct':
            return VStruct(t, [self.rd(st, mk, ft, base + (i,)) for i, (n, ft) in enumerate(self.fields(t))])
        if k == 'array':
            n = self.T.u(t)['n']
            if n > 16:
                raise Unsupported('large array value: ' + t)
            return VArr(t, [self.rd(st, mk, self.elem(t), base + (i,)) for i in range(n)])
        return self.wrap(t, mk(base, self.T.norm(t)))

    def wrv(self, st, mk, v, t, base=()):
        k = self.kind(t)
        if k == 'struct':
            if not isinstance(v, VStruct):
                raise Unsupported('struct value')
            for i, (n, ft) in enumerate(self.fields(t)):
                self.wrv(st, mk, v.vals[i], ft, base + (i,))
            return
        if k == 'array':
            for i in range(self.T.u(t)['n']):
                self.wrv(st, mk, v.vals[i], self.elem(t), base + (i,))
            return
        mk(base, self.T.norm(t), self.unwrap(st, v, t))

    def ftype(self, t, path):
        for p in path:
            if self.kind(t) == 'struct':
                t = self.fields(t)[p][1]
            else:
                t = self.elem(t)
        return self.T.norm(t)

    # ------------------------------------------------------------ values

    def zero(self, t):
        k = self.kind(t)
        if k == 'int':
            return I(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return self.fm.const(self.fbits(t), 0)
        if k == 'string':
            return smt.strlit(b'')
        if k == 'slice':
            return s_mk(I(0), I(0), I(0), I(0))
        if k in ('ptr', 'map', 'nil', 'chan'):
            return I(0)
        if k == 'iface':
            return VIface(I(0))
        if k == 'func':
            return FnRef(None)
        if k == 'struct':
            return VStruct(t, [self.zero(ft) for _, ft in self.fields(t)])
        if k == 'array':
            n = self.T.u(t)['n']
            if n > 4096:
                raise Unsupported('large array')
            return VArr(t, [self.zero(self.elem(t)) for _ in range(n)])
        if k == 'opaque':
            return z3.Const('zero_' + t, self.sort(t))
        if k == 'tuple':
            return VTuple([self.zero(x) for x in self.T.u(t)['es']])
        raise Unsupported('zero value of ' + t)

    def symval(self, st, t, name, alloc=None):
        """arbitrary value of a type, with its typing facts assumed"""
        alloc = alloc if alloc is not None else st.alloc
        k = self.kind(t)
        if k == 'struct':
            return VStruct(t, [self.symval(st, ft, name + '.' + n, alloc) for n, ft in self.fields(t)])
        if k == 'array':
            n = self.T.u(t)['n']
            if n > 16:
                raise Unsupported('large array value: ' + t)
            return VArr(t, [self.symval(st, self.elem(t), name + '.%d' % i, alloc) for i in range(n)])
        if k == 'tuple':
            return VTuple([self.symval(st, x, name + '.%d' % i, alloc) for i, x in enumerate(self.T.u(t)['es'])])
        if k == 'func':
            return FnSym(smt.freshname(name), t)
        c = fresh(name, self.sort(t))
        f = self.typefact(c, t, alloc)
        if f is not None:
            st.assume(f)
        self.setbnd(c, t)
        if f is not None and alloc is not None and z3.is_const(alloc) and str(alloc) == 'alloc0' and k in ('slice', 'ptr', 'map') and c.sort() in (INT, SLICE):
            r = s_ref(c) if k == 'slice' else c
            self.oldrefs[r.get_id()] = r        # existed at entry
        return self.wrap(t, c)

    def const(self, x):
        t = x['t']
        if x.get('zero'):
            return self.zero(t)
        k = self.kind(t)
        if x['c'] == 'bool':
            return z3.BoolVal(x['x'])
        if x['c'] == 'string':
            return smt.strlit(bytes(x['x'] or []))
        if x['c'] == 'num':
            if k == 'int':
                return I(int(Fraction(x['x'])))
            if k == 'float':
                return self.fm.const(self.fbits(t), Fraction(x['x']))
        raise Unsupported('constant %r' % (x,))

    def val(self, st, x):
        v = x['v']
        if v == 'reg':
            r = st.regs[x['n']]
            if isinstance(r, Poison):
                raise Unsupported('value lost at a join: ' + r.why)
            return r
        if v == 'const':
            return self.const(x)
        if v == 'global':
            return PGlob(x['n'])
        if v == 'func':
            return FnRef(x['n'])
        if v == 'builtin':
            return FnRef('builtin:' + x['n'])
        raise Unsupported('operand ' + v)

    # ------------------------------------------------------------ bounds and integer arithmetic

    def bounds(self, t, depth=0):
        """interval of an integer term from syntactic information (None: unbounded)"""
        if z3.is_int_value(t):
            v = t.as_long()
            return v, v
        h = self.bnd.get(t.get_id())
        r = (h[1], h[2]) if h is not None and h[0].eq(t) else (None, None)
        if depth > 12 or not z3.is_app(t):
            return r
        k = t.decl().kind()
        c = None
        if k == z3.Z3_OP_ADD:
            lo, hi = 0, 0
            for a in t.children():
                l, h2 = self.bounds(a, depth + 1)
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h2 is None else hi + h2
            c = (lo, hi)
        elif k == z3.Z3_OP_SUB and t.num_args() == 2:
            (a, b), (x, y) = self.bounds(t.arg(0), depth + 1), self.bounds(t.arg(1), depth + 1)
            c = (None if a is None or y is None else a - y, None if b is None or x is None else b - x)
        elif k == z3.Z3_OP_MUL and t.num_args() == 2:
            (a, b), (x, y) = self.bounds(t.arg(0), depth + 1), self.bounds(t.arg(1), depth + 1)
            if None not in (a, b, x, y):
                ps = [a * x, a * y, b * x, b * y]
                c = (min(ps), max(ps))
        elif k == z3.Z3_OP_UMINUS:
            a, b = self.bounds(t.arg(0), depth + 1)
            c = (None if b is None else -b, None if a is None else -a)
        elif k == z3.Z3_OP_ITE:
            (a, b), (x, y) = self.bounds(t.arg(1), depth + 1), self.bounds(t.arg(2), depth + 1)
            c = (None if a is None or x is None else min(a, x), None if b is None or y is None else max(b, y))
        elif k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            c = (0, t.arg(1).as_long() - 1)
            a, b = self.bounds(t.arg(0), depth + 1)
            if a is not None and b is not None and 0 <= a and b < t.arg(1).as_long():
                c = (a, b)
        elif k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            a, b = self.bounds(t.arg(0), depth + 1)
            d = t.arg(1).as_long()
            c = (None if a is None else a // d, None if b is None else b // d)
        elif t.decl().eq(SLICE.s_len) or t.decl().eq(SLICE.s_cap) or t.decl().eq(SLICE.s_off) or t.decl().eq(str_len):
            c = (0, MAXLEN)
        elif t.decl().eq(str_at):
            c = (0, 255)
        elif k == z3.Z3_OP_SELECT and t.sort() == INT:
            pass
        if c is None:
            return r
        lo = c[0] if r[0] is None else r[0] if c[0] is None else max(r[0], c[0])
        hi = c[1] if r[1] is None else r[1] if c[1] is None else min(r[1], c[1])
        return lo, hi

    def within(self, t, lo, hi):
        a, b = self.bounds(t)
        return a is not None and b is not None and lo <= a and b <= hi

    def entails(self, st, goal, ms=400):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        if any(t.eq(goal) for _, t in st.path):
            return True
        if self.in_init or self.dry:
            return False
        return self.prover.check(st.facts(), goal, ms) == 'proved'

    def norm(self, st, r, t):
        """result of an integer operation of type t (wraps around unless provably in range)"""
        b, s = self.intinfo(t)
        lo, hi = rng(b, s)
        if z3.is_app(r) and all(z3.is_int_value(a) for a in r.children()):
            r = z3.simplify(r)
        if z3.is_int_value(r):
            v = r.as_long()
            return I(((v - lo) & ((1 << b) - 1)) + lo)
        if self.within(r, lo, hi):
            return r
        if self.dry:
            return r
        inr = AND(r >= lo, r <= hi)
        if b == 64 and self.entails(st, inr):
            return r
        return self.wrapped(r, b, s)

    def norm_pure(self, r, t):
        """two's complement wrap-around, for specifications"""
        b, s = self.intinfo(t)
        if z3.is_int_value(r):
            lo = rng(b, s)[0]
            return I(((r.as_long() - lo) & ((1 << b) - 1)) + lo)
        return self.wrapped(r, b, s)

    def wrapped(self, r, b, s):
        lo, hi = rng(b, s)
        inr = AND(r >= lo, r <= hi)
        m = I(1 << b)
        if not s:
            w = r % m
        else:
            w = ite(inr, r, (r + I(1 << (b - 1))) % m - I(1 << (b - 1)))
        self.bnd[w.get_id()] = (w, lo, hi)
        return w

    def intop(self, st, tok, x, y, t, ins):
        if tok == '+':
            return self.norm(st, self.addn(x, y), t)
        if tok == '-':
            return self.norm(st, self.addn(x, -y if not z3.is_int_value(y) else I(-y.as_long())), t)
        if tok == '*':
            if z3.is_int_value(x) and z3.is_int_value(y):
                return self.norm(st, I(x.as_long() * y.as_long()), t)
            for a, b in ((x, y), (y, x)):
                if z3.is_int_value(a) and a.as_long() == 1:
                    return b
                if z3.is_int_value(a) and a.as_long() == 0:
                    return I(0)
            if z3.is_int_value(y):
                x, y = y, x
            r = x * y
            b, s = self.intinfo(t)
            if not (z3.is_int_value(x) or z3.is_int_value(y)) and not self.within(r, *rng(b, s)):
                # bounded products: let the solver bound the factors first
                for lim in (1 << 15, 1 << 24, 1 << 31):
                    q = AND(x >= -lim, x <= lim, y >= -lim, y <= lim)
                    if self.entails(st, q):
                        return r
            return self.norm(st, r, t)
        if tok in ('/', '%'):
            self.ob(st, y != 0, 'div', 'division by zero', ins)
            return self.quorem(st, tok, x, y, t)
        if tok == '&':
            return self.band(st, x, y, t)
        if tok == '|':
            return self.bor(st, x, y, t)
        if tok == '^':
            return self.bxor(st, x, y, t)
        if tok == '&^':
            b, s = self.intinfo(t)
            if z3.is_int_value(y):
                return self.norm(st, self.addn(x, -self.band(st, x, y, t)), t)
            return self.norm(st, self.addn(x, -self.band(st, x, y, t)), t)
        if tok in ('<<', '>>'):
            return self.shift(st, tok, x, y, t, ins)
        raise Unsupported('integer operator ' + tok)

    def addn(self, x, y):
        """addition kept in a flat normal form (constants folded)"""
        c, ts = 0, []
        w = [x, y]
        while w:
            a = w.pop(0)
            if z3.is_int_value(a):
                c += a.as_long()
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD:
                w = a.children() + w
            else:
                ts.append(a)
        # cancel t and -t
        out = []
        for a in ts:
            neg = a.arg(0) if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS else None
            for k, b in enumerate(out):
                bn = b.arg(0) if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UMINUS else None
                if (neg is not None and neg.eq(b)) or (bn is not None and bn.eq(a)):
                    out.pop(k)
                    break
            else:
                out.append(a)
        if not out:
            return I(c)
        if c:
            out.append(I(c))
        return out[0] if len(out) == 1 else z3.Sum(out)

    def quorem(self, st, tok, x, y, t):
        if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() != 0:
            a, b = x.as_long(), y.as_long()
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            return self.norm(st, I(q if tok == '/' else a - q * b), t)
        if z3.is_int_value(y) and y.as_long() > 0:
            lo, _ = self.bounds(x)
            if (lo is not None and lo >= 0) or self.entails(st, x >= 0):
                r = x / y if tok == '/' else x % y
            else:
                q = ite(x >= 0, x / y, -((-x) / y))
                r = q if tok == '/' else x - y * q
            return r
        r = (idiv if tok == '/' else imod)(x, y)
        self.setbnd(r, t)
        return r if tok == '%' else self.norm(st, r, t)

    @staticmethod
    def runs(m):
        out, i = [], 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                out.append((i, j - i))
                i = j
            else:
                i += 1
        return out

    def slicebits(self, x, lo, w):
        if lo == 0:
            a, b = self.bounds(x)
            if a is not None and a >= 0 and b is not None and b < (1 << w):
                return x
            return x % I(1 << w)
        a, b = self.bounds(x)
        q = x / I(1 << lo)
        if a is not None and a >= 0 and b is not None and b < (1 << (lo + w)):
            return q
        return q % I(1 << w)

    def band(self, st, x, y, t):
        if z3.is_int_value(x):
            x, y = y, x
        b, s = self.intinfo(t)
        if z3.is_int_value(y):
            m = y.as_long()
            if z3.is_int_value(x):
                return self.norm(st, I(x.as_long() & m), t)
            if m < 0:
                k = (~m) & ((1 << b) - 1)
                if k == 0:
                    return x
                return self.addn(x, -self.band(st, x, I(k), t)) if k < (1 << (b - 1)) or not s else self._bitfresh(st, t)
            parts = []
            for lo, w in self.runs(m):
                q = self.slicebits(x, lo, w)
                parts.append(q if lo == 0 else q * I(1 << lo))
            if not parts:
                return I(0)
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self.bitwise(st, x, y, t, lambda p, q: p * q)

    def _bitfresh(self, st, t):
        self.notes.append('bit operation over-approximated')
        return self.symval(st, t, 'bits')

    def bitwise(self, st, x, y, t, f):
        (a, b), (c, d) = self.bounds(x), self.bounds(y)
        if None in (a, b, c, d) or a < 0 or c < 0 or max(b, d) >= (1 << 16):
            return self._bitfresh(st, t)
        n = max(b, d).bit_length()
        bit = lambda z, i: (z / I(1 << i)) % I(2)
        return z3.Sum([I(1 << i) * f(bit(x, i), bit(y, i)) for i in range(n)]) if n else I(0)

    def tz(self, x):
        """known trailing zero bits"""
        if z3.is_int_value(x):
            v = x.as_long()
            return 64 if v == 0 else (v & -v).bit_length() - 1
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                return sum(self.tz(a) for a in x.children())
            if k == z3.Z3_OP_ADD:
                return min(self.tz(a) for a in x.children())
            if k == z3.Z3_OP_UMINUS:
                return self.tz(x.arg(0))
            if k == z3.Z3_OP_ITE:
                return min(self.tz(x.arg(1)), self.tz(x.arg(2)))
            if k == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1)):
                return min(self.tz(x.arg(0)), self.tz(x.arg(1)))
        return 0

    def bor(self, st, x, y, t):
        if z3.is_int_value(x) and z3.is_int_value(y):
            return self.norm(st, I(x.as_long() | y.as_long()), t)
        for a, b in ((x, y), (y, x)):
            lo, hi = self.bounds(b)
            if lo is not None and hi is not None and lo >= 0 and hi < (1 << min(self.tz(a), 63)):
                return self.norm(st, self.addn(a, b), t)
        for a, b in ((x, y), (y, x)):
            if z3.is_int_value(b) and b.as_long() >= 0:
                return self.norm(st, self.addn(self.addn(a, b), -self.band(st, a, b, t)), t)
        return self.bitwise(st, x, y, t, lambda p, q: p + q - p * q)

    def bxor(self, st, x, y, t):
        if z3.is_int_value(x) and z3.is_int_value(y):
            return self.norm(st, I(x.as_long() ^ y.as_long()), t)
        for a, b in ((x, y), (y, x)):
            if z3.is_int_value(b) and b.as_long() == -1:
                return self.norm(st, -a - 1, t)
            if z3.is_int_value(b) and b.as_long() >= 0:
                return self.norm(st, self.addn(self.addn(a, b), I(-2) * self.band(st, a, b, t)), t)
        return self.bitwise(st, x, y, t, lambda p, q: p + q - 2 * p * q)

    def shift(self, st, tok, x, y, t, ins):
        b, s = self.intinfo(t)
        lo, _ = self.bounds(y)
        if lo is None or lo < 0:
            self.ob(st, y >= 0, 'shift', 'negative shift count', ins)
        y = z3.simplify(y)
        if z3.is_int_value(y):
            k = y.as_long()
            if tok == '<<':
                return I(0) if k >= b else self.norm(st, x * I(1 << k) if not z3.is_int_value(x) else I(x.as_long() << k), t)
            if k >= b:
                return ite(x < 0, I(-1), I(0)) if s else I(0)
            return x / I(1 << k) if not z3.is_int_value(x) else I(x.as_long() >> k)
        lo, hi = self.bounds(y)
        if hi is None or hi > 64:
            hi = 64
        r = self.shift(st, tok, x, I(min(hi, 64)), t, ins)
        for k in range(min(hi, 64) - 1, -1, -1):
            r = ite(y == k, self.shift(st, tok, x, I(k), t, ins), r)
        return r

    # ------------------------------------------------------------ obligations

    def ob(self, st, goal, kind, name, ins=None, props=None, assume=True):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if not z3.is_true(goal):
            if not self.quiet and not self.in_init:
                top = self.top
                props = props if props is not None else top.contract.safeprops
                pos = ins.get('pos', '') if isinstance(ins, dict) else (ins or '')
                where = self.callstack[-1].split('/')[-1] if self.callstack else ''
                self.obs.append(Obligation(top.fn.name, kind, name + (' [in %s]' % where if where and self.callstack[-1] != top.fn.name else ''),
                                           frozenset(props), list(st.facts()), goal, pos))
            if assume:
                st.assume(goal)
        return st

    # ------------------------------------------------------------ memory access

    def load(self, st, p, t, ins=None):
        if isinstance(p, PCell):
            return self.cellget(st, p.cell, p.path)
        if isinstance(p, PGlob):
            return self.globget(st, p, t)
        if isinstance(p, PField):
            return self.rd(st, lambda path, lt: self.rd_leaf(st, ('F', p.st, p.path + path, lt), p.ref), t)
        if isinstance(p, PElem):
            return self.rd(st, lambda path, lt: self.rd_leaf(st, ('E', p.et, p.path + path, lt), p.ref, p.idx), t)
        if isinstance(p, z3.ExprRef):   # pointer to heap struct
            self.ob(st, p != 0, 'nil', 'nil pointer dereference', ins)
            s = self.T.norm(t)
            return self.rd(st, lambda path, lt: self.rd_leaf(st, ('F', s, path, lt), p), t)
        if isinstance(p, PArr) and p.n <= 16:
            return VArr(self.T.norm(t), [self.load(st, PElem(p.et, p.ref, I(i)), p.et, ins) for i in range(p.n)])
        raise Unsupported('load through ' + type(p).__name__)

    def store(self, st, p, v, t, ins=None):
        if isinstance(p, PCell):
            return self.cellset(st, p.cell, p.path, v)
        if isinstance(p, PGlob):
            if self.in_init:
                return self.globset(st, p, v)
            self.ob(st, z3.BoolVal(False), 'frame', 'package variable %s is written' % p.name.split('/')[-1], ins,
                    props=self.top.contract.frameprops, assume=False)
            return
        if isinstance(p, PField):
            def w(path, lt, term):
                self.wr_leaf(st, ('F', p.st, p.path + path, lt), p.ref, term)
            return self.wrv(st, w, v, t)
        if isinstance(p, PElem):
            def w(path, lt, term):
                key = ('E', p.et, p.path + path, lt)
                if self.writelog is not None:
                    self.writelog.append((key, p.ref, p.idx, term, st, ins))
                self.wr_leaf(st, key, p.ref, term, p.idx)
            return self.wrv(st, w, v, t)
        if isinstance(p, z3.ExprRef):
            self.ob(st, p != 0, 'nil', 'nil pointer dereference', ins)
            s = self.T.norm(t)

            def w(path, lt, term):
                self.wr_leaf(st, ('F', s, path, lt), p, term)
            return self.wrv(st, w, v, t)
        if isinstance(p, PArr) and isinstance(v, VArr) and len(v.vals) == p.n:
            for i, x in enumerate(v.vals):
                self.store(st, PElem(p.et, p.ref, I(i)), x, p.et, ins)
            return
        raise Unsupported('store through ' + type(p).__name__)

    def path_get(self, v, path):
        for k in path:
            if isinstance(v, Poison):
                raise Unsupported('value lost at a join: ' + v.why)
            if isinstance(k, z3.ExprRef):
                if z3.is_int_value(k):
                    v = v.vals[k.as_long()]
                else:
                    r = v.vals[-1]
                    alts = []
                    if isinstance(r, (FnRef, Closure, FnIte)):
                        alts = [(k == i, x) for i, x in enumerate(v.vals)]
                        v = FnIte(alts)
                        continue
                    for i in range(len(v.vals) - 2, -1, -1):
                        r = mergev(k == i, v.vals[i], r)
                    v = r
            else:
                v = v.vals[k]
        return v

    def path_set(self, v, path, x):
        if not path:
            return x
        k, rest = path[0], path[1:]
        n = type(v)(v.t, v.vals)
        if isinstance(k, z3.ExprRef) and not z3.is_int_value(k):
            for i in range(len(v.vals)):
                n.vals[i] = mergev(k == i, self.path_set(v.vals[i], rest, x), v.vals[i])
            return n
        if isinstance(k, z3.ExprRef):
            k = k.as_long()
        n.vals[k] = self.path_set(v.vals[k], rest, x)
        return n

    def cellget(self, st, c, path):
        v = st.cells[c]
        if isinstance(v, Poison):
            raise Unsupported('memory lost at a join: ' + v.why)
        return self.path_get(v, path)

    def cellset(self, st, c, path, v):
        st.cells[c] = self.path_set(st.cells[c], path, v)

    def globget(self, st, p, t):
        if self.in_init:
            g = self.globals_val.get(p.name)
            if g is None:
                g = self.ext.global_value(self, st, p.name)
                if g is None:
                    if p.name in self.prog.globals:
                        g = self.zero(self.elem(self.prog.globals[p.name]))
                    else:
                        raise Unsupported('external variable ' + p.name)
                self.globals_val[p.name] = g
            return self.path_get(g, p.path)
        if p.name in self.prog.mutable_globals:
            return self.symval(st, t, 'glob')
        g = self.globals_val.get(p.name)
        if g is None:
            g = self.ext.global_value(self, st, p.name)
        if g is None or isinstance(g, Poison):
            return self.symval(st, t, 'glob_' + p.name.split('.')[-1])
        return self.path_get(g, p.path)

    def globset(self, st, p, v):
        g = self.globals_val.get(p.name)
        if g is None:
            g = self.zero(self.elem(self.prog.globals[p.name]))
        self.globals_val[p.name] = self.path_set(g, p.path, v)

    @property
    def split(self):
        """paths are kept apart (directive of the contract being verified)"""
        return self.top is not None and getattr(self.top.contract, 'split', False)

    def alloc(self, st):
        r = self.addn(st.alloc, I(1))
        st.alloc = r
        if not self.in_init:
            self.newrefs[r.get_id()] = r        # greater than every reference at entry
        return r

    # ------------------------------------------------------------ function execution

    def run_fn(self, st, fn, args, top, depth=0, binds=None):
        """executes a body; returns list of (state, [results])"""
        if fn.external:
            raise Unsupported('no body for ' + fn.name)
        if depth > self.MAXDEPTH or self.callstack.count(fn.name) > 1:
            raise Unsupported('recursion or deep call nesting at ' + fn.name)
        fn.analyse()
        fr = Frame(fn, depth, top)
        saved, sdef = st.regs, st.defers
        st.regs, st.defers = {}, []
        for (n, _), v in zip(fn.params, args):
            st.regs[n] = v
        for (n, _), v in zip(fn.freevars, binds or []):
            st.regs[n] = v
        self.callstack.append(fn.name)
        cf, self.curframe = self.curframe, fr
        try:
            res = self.run_blocks(fr, None, 0, [(None, st)])
            rets = res['rets']
        finally:
            self.callstack.pop()
            self.curframe = cf
        for s, _ in rets:
            s.regs, s.defers = dict(saved), list(sdef)
        if len(rets) > 1 and depth > 0 and not self.split:
            rets = self.merge_returns(rets)
        return rets

    def merge_returns(self, rets):
        out = []
        for s, vs in rets:
            for k in range(len(out)):
                a, va = out[k]
                try:
                    for i, v in enumerate(va):
                        a.regs['$ret%d' % i] = v
                    for i, v in enumerate(vs):
                        s.regs['$ret%d' % i] = v
                    m = merge(a, s, h0=self.h0m)
                    out[k] = (m, [m.regs.pop('$ret%d' % i) for i in range(len(vs))])
                    break
                except Unmergeable:
                    continue
                finally:
                    for x in (a, s):
                        for i in range(len(vs)):
                            x.regs.pop('$ret%d' % i, None)
            else:
                out.append((s, vs))
        return out

    def edge(self, fr, pred, succ, st):
        """assigns the phis of succ for the edge pred->succ"""
        blk = fr.fn.blocks[succ]
        new = {}
        for ins in blk['i']:
            if ins['op'] != 'Phi':
                break
            k = blk['pred'].index(pred)
            new[ins['r']] = self.val(st, ins['edges'][k])
        st.regs.update(new)
        return st

    def join(self, fr, blk, incoming):
        """merges the states arriving at a block"""
        live = set(fr.fn.livein[blk])
        for ins in fr.fn.blocks[blk]['i']:
            if ins['op'] != 'Phi':
                break
            live.add(ins['r'])
        sts = list(incoming)
        if self.split and len(sts) <= 24:
            return sts
        out = []
        for s in sts:
            for k in range(len(out)):
                try:
                    out[k] = merge(out[k], s, live & set(s.regs) & set(out[k].regs), h0=self.h0m)
                    break
                except Unmergeable as e:
                    continue
            else:
                out.append(s)
        # second pass: merged states may now be mergeable with each other
        if len(out) > 1:
            acc = [out[0]]
            for s in out[1:]:
                for k in range(len(acc)):
                    try:
                        acc[k] = merge(acc[k], s, live & set(s.regs) & set(acc[k].regs), h0=self.h0m)
                        break
                    except Unmergeable:
                        continue
                else:
                    acc.append(s)
            out = acc
        if len(out) > 24:
            raise Unsupported('too many unmergeable paths')
        return out

    def run_blocks(self, fr, body, start, init):
        """runs the blocks of `body` (None: the function) from start. init: [(pred, state)].
        Returns exits [(pred, succ, state)], backs [(pred, state)], rets [(state, vals)]"""
        fn = fr.fn
        inc = {start: [s for _, s in init]}
        exits, backs, rets = [], [], []
        done = set()
        for b in fn.rpo:
            if body is not None and b not in body:
                continue
            if b in done or b not in inc:
                continue
            sts = inc.pop(b)
            sts = self.join(fr, b, sts) if len(sts) > 1 else sts
            if b in fn.loops and not (body is not None and b == start):
                lb = fn.loops[b]
                done |= lb
                for s in sts:
                    r = self.do_loop(fr, b, s)
                    rets += r['rets']
                    for p, t, s2 in r['exits']:
                        self.flow(fr, p, t, s2, inc, body, start, exits, backs)
                continue
            done.add(b)
            for s in sts:
                for kind, *x in self.run_block(fr, b, s):
                    if kind == 'ret':
                        rets.append((x[0], x[1]))
                    else:
                        t, s2 = x
                        self.flow(fr, b, t, s2, inc, body, start, exits, backs)
        return {'exits': exits, 'backs': backs, 'rets': rets}

    def flow(self, fr, p, t, s, inc, body, start, exits, backs):
        if body is not None and t == start:
            backs.append((p, self.edge(fr, p, t, s)))
        elif body is not None and t not in body:
            exits.append((p, t, s))     # phis assigned by the outer level
        else:
            inc.setdefault(t, []).append(self.edge(fr, p, t, s))

    def run_block(self, fr, b, st):
        sts = [st]
        out = []
        blk = fr.fn.blocks[b]
        for ins in blk['i']:
            op = ins['op']
            if op == 'Phi':
                continue
            if op == 'Jump':
                for s in sts:
                    out.append(('go', blk['succ'][0], s))
                return out
            if op == 'If':
                for s in sts:
                    c = z3.simplify(self.val(s, ins['x']))
                    if z3.is_true(c):
                        out.append(('go', blk['succ'][0], s))
                    elif z3.is_false(c):
                        out.append(('go', blk['succ'][1], s))
                    else:
                        if self.absurd(s, c):
                            out.append(('go', blk['succ'][1], s))
                            continue
                        if self.absurd(s, NOT(c)):
                            out.append(('go', blk['succ'][0], s))
                            continue
                        if self.split:
                            if self.entails(s, c, 1000):
                                out.append(('go', blk['succ'][0], s))
                                continue
                            if self.entails(s, NOT(c), 1000):
                                out.append(('go', blk['succ'][1], s))
                                continue
                        s2 = s.copy()
                        s.assume(c, 'b')
                        s2.assume(z3.simplify(NOT(c)), 'b')
                        self.settle(s, c)
                        self.settle(s2, NOT(c))
                        out.append(('go', blk['succ'][0], s))
                        out.append(('go', blk['succ'][1], s2))
                return out
            if op == 'Return':
                for s in sts:
                    out.append(('ret', s, [self.val(s, x) for x in ins['res']]))
                return out
            if op == 'Panic':
                for s in sts:
                    self.ob(s, z3.BoolVal(False), 'panic', 'reachable panic', ins)
                return out
            nxt = []
            for s in sts:
                nxt += self.step(fr, s, ins)
            sts = nxt
            if not sts:
                return out
        raise Unsupported('block without terminator')

    def itecs(self, t):
        """conditions of the conditional terms in t"""
        c = self.itecache.get(t.get_id())
        if c is None or not c[0].eq(t):
            acc, seen, w = {}, set(), [t]
            while w:
                x = w.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if len(seen) > 400:
                    break
                if x.decl().kind() == z3.Z3_OP_ITE:
                    acc[x.arg(0).get_id()] = x.arg(0)
                w.extend(x.children())
            c = self.itecache[t.get_id()] = (t, acc)
        return c[1]

    def itecs2(self, t):
        """identities of all boolean subterms of t"""
        seen, w = set(), [t]
        while w:
            x = w.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if len(seen) > 600:
                break
            w.extend(x.children())
        return seen

    def absurd(self, st, t):
        t = z3.simplify(t)
        if z3.is_false(t):
            return True
        if z3.is_true(t) or z3.is_app(t) and t.num_args() == 0:
            return False
        s = z3.SimpleSolver()
        s.set('timeout', 50)
        for f in st.facts()[:40]:
            if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE) and f.arg(0).num_args() == 0 and f.arg(1).num_args() == 0:
                s.add(f)
        s.add(t)
        return s.check() == z3.unsat

    def settle(self, st, c):
        """a branch on c decides conditions of merged values: they are resolved in the state"""
        sub = {}

        def terms(v, acc):
            if isinstance(v, z3.ExprRef):
                acc.append(v)
            elif isinstance(v, (VStruct, VArr, VTuple)):
                for x in v.vals:
                    terms(x, acc)
            elif isinstance(v, VIface):
                acc.append(v.term)
                if v.val is not None:
                    terms(v.val, acc)
            elif isinstance(v, PField):
                acc.append(v.ref)
            elif isinstance(v, PElem):
                acc += [v.ref, v.idx]
        conds = {}
        for store in (st.regs, st.cells, st.heap):
            for v in store.values():
                acc = []
                terms(v, acc)
                for t in acc:
                    conds.update(self.itecs(t))
        conds.update(self.itecs(st.alloc))
        T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
        if not conds:
            return
        inc = self.itecs2(c)
        for k, x in conds.items():
            if z3.is_not(x) and x.arg(0).get_id() not in inc and k not in inc or not z3.is_not(x) and k not in inc:
                continue
            if self.absurd(st, z3.substitute(c, (x, F_))):
                sub[k] = (x, T_)
            elif self.absurd(st, z3.substitute(c, (x, T_))):
                sub[k] = (x, F_)
        if not sub:
            return

        memo = {}

        def one(t):
            if not z3.is_app(t) or not t.num_args():
                return t
            if t.get_id() in memo:
                return memo[t.get_id()]
            if t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).get_id() in sub:
                r = one(t.arg(1) if z3.is_true(sub[t.arg(0).get_id()][1]) else t.arg(2))
            else:
                old = t.children()
                new = [one(x) for x in old]
                r = t if all(x.eq(y) for x, y in zip(old, new)) else t.decl()(*new)
            memo[t.get_id()] = r
            return r

        def res(v):
            if isinstance(v, z3.ExprRef):
                r = one(v)
                return v if r.eq(v) else r
            if isinstance(v, (VStruct, VArr)):
                return type(v)(v.t, [res(x) for x in v.vals])
            if isinstance(v, VTuple):
                return VTuple([res(x) for x in v.vals])
            if isinstance(v, VIface):
                if v.val is None:
                    return VIface(one(v.term), v.dt) if v.dt is not None else VIface(one(v.term))
                return VIface(one(v.term), v.dt, res(v.val))
            if isinstance(v, PField):
                return PField(v.st, one(v.ref), v.path)
            if isinstance(v, PElem):
                return PElem(v.et, one(v.ref), one(v.idx), v.path)
            return v
        for store in (st.regs, st.cells, st.heap):
            for k in list(store):
                acc = []
                terms(store[k], acc)
                if any(x in sub for t in acc for x in self.itecs(t)):
                    store[k] = res(store[k])
        st.alloc = one(st.alloc)

    def step(self, fr, st, ins):
        op = ins['op']
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        r = m(fr, st, ins)
        if r is None:
            return [st]
        if isinstance(r, list):
            out = []
            for s, v in r:
                if 'r' in ins:
                    s.regs[ins['r']] = v
                out.append(s)
            return out
        st.regs[ins['r']] = r
        return [st]

    # ------------------------------------------------------------ instructions

    def i_Alloc(self, fr, st, ins):
        t = self.T.norm(self.T.u(ins['t'])['e'])
        if self.is_heap_struct(t):
            r = self.alloc(st)
            for path, lt in self.leaves(t):
                self.wr_leaf(st, ('F', t, path, lt), r, self.unwrap(st, self.zero(lt), lt))
            return r
        if self.kind(t) == 'array':
            et = self.elem(t)
            n = self.T.u(t)['n']
            if self.kind(et) not in ('iface', 'func') and (n > 16 or self.sliced(fr.fn, ins['r'])):
                r = self.alloc(st)
                for path, lt in self.leaves(et):
                    z = z3.K(INT, self.unwrap(st, self.zero(lt), lt))
                    self.wr_leaf(st, ('E', et, path, lt), r, z)
                return PArr(et, r, n)
        self.ncell += 1
        c = self.ncell
        st.cells[c] = self.zero(t)
        self.named_cells[c] = (ins.get('comment', ''), t)
        return PCell(c)

    def sliced(self, fn, reg):
        for b in fn.blocks:
            for x in b['i']:
                if x['op'] == 'Slice' and x['x']['v'] == 'reg' and x['x']['n'] == reg:
                    return True
        return False

    def i_FieldAddr(self, fr, st, ins):
        p = self.val(st, ins['x'])
        f = ins['i']
        if isinstance(p, PCell):
            return PCell(p.cell, p.path + (f,))
        if isinstance(p, PGlob):
            return PGlob(p.name, p.path + (f,))
        if isinstance(p, PField):
            return PField(p.st, p.ref, p.path + (f,))
        if isinstance(p, PElem):
            return PElem(p.et, p.ref, p.idx, p.path + (f,))
        if isinstance(p, z3.ExprRef):
            self.ob(st, p != 0, 'nil', 'nil pointer dereference', ins)
            return PField(self.elem(ins['x']['t']), p, (f,))
        raise Unsupported('FieldAddr on ' + type(p).__name__)

    def i_Field(self, fr, st, ins):
        return self.val(st, ins['x']).vals[ins['i']]

    def bounds_ob(self, st, i, n, ins):
        self.ob(st, AND(i >= 0, i < n), 'index', 'index out of range', ins)

    def i_IndexAddr(self, fr, st, ins):
        p, i = self.val(st, ins['x']), self.val(st, ins['y'])
        xt = ins['x']['t']
        k = self.kind(xt)
        if k == 'slice':
            if isinstance(p, CellSlice):
                self.bounds_ob(st, i, p.hi - p.lo, ins)
                return PCell(p.cell, (z3.simplify(i + p.lo),))
            self.bounds_ob(st, i, s_len(p), ins)
            return PElem(self.elem(xt), s_ref(p), self.addn(s_off(p), i))
        at = self.T.u(xt)['e']
        n = self.T.u(at)['n']
        self.bounds_ob(st, i, I(n), ins)
        i = z3.simplify(i)
        if isinstance(p, PArr):
            return PElem(p.et, p.ref, i)
        if isinstance(p, PCell):
            return PCell(p.cell, p.path + (i,))
        if isinstance(p, PGlob):
            return PGlob(p.name, p.path + (i,))
        if isinstance(p, (PField, PElem)) and z3.is_int_value(i):
            q = i.as_long()
            if isinstance(p, PField):
                return PField(p.st, p.ref, p.path + (q,))
            return PElem(p.et, p.ref, p.idx, p.path + (q,))
        raise Unsupported('IndexAddr on ' + type(p).__name__)

    def i_Index(self, fr, st, ins):
        v, i = self.val(st, ins['x']), self.val(st, ins['y'])
        if self.kind(ins['x']['t']) == 'string':
            self.bounds_ob(st, i, str_len(v), ins)
            return self.setbnd(str_at(v, i), ins['t'])
        self.bounds_ob(st, i, I(len(v.vals)), ins)
        return self.path_get(v, (z3.simplify(i),))

    def i_Lookup(self, fr, st, ins):
        x, y = self.val(st, ins['x']), self.val(st, ins['y'])
        if self.kind(ins['x']['t']) == 'string':
            self.bounds_ob(st, y, str_len(x), ins)
            return self.setbnd(str_at(x, y), ins['t'])
        mt = self.T.ukey(ins['x']['t'])
        v, ok = self.maplookup(st, x, y, mt)
        if not self.in_init:
            v = self.named(st, v)
            ok = self.named(st, ok)
        return VTuple([v, ok]) if ins.get('commaok') else v

    def named(self, st, v):
        """conditional terms get a name, with their definition as a fact"""
        if isinstance(v, z3.ExprRef):
            if not z3.is_app(v) or v.num_args() == 0 or v.sort().kind() == z3.Z3_ARRAY_SORT:
                return v
            if v.decl().kind() == z3.Z3_OP_ITE or z3.is_bool(v):
                n = smt.fresh('nm', v.sort())
                st.assume(n == v, 'd')
                return n
            return v
        if isinstance(v, (VStruct, VArr)):
            return type(v)(v.t, [self.named(st, x) for x in v.vals])
        return v

    def maplookup(self, st, m, key, mt):
        et = self.T.norm(self.T.u(mt)['e'])
        key = self.unwrap(st, key, self.T.u(mt)['key'])
        m = z3.simplify(m)
        if z3.is_int_value(m) and m.as_long() in self.const_maps and not self.in_init:
            ents = self.const_maps[m.as_long()]
            v, ok = self.zero(et), z3.BoolVal(False)
            for k, w in ents.items():
                c = key == k[1]
                v = mergev(c, w, v)
            ok = z3.Or(*[key == k[1] for k in ents]) if ents else ok
            return v, ok
        ok = self.sel(self.sel(self.reg(st, ('MD', mt)), m), key)
        if not any(z3.is_not(f) and z3.is_eq(f.arg(0)) and {f.arg(0).arg(0).get_id(), f.arg(0).arg(1).get_id()} == {m.get_id(), I(0).get_id()} for f in st.facts()):
            ok = AND(m != 0, ok)
        z = self.zero(et)

        def mk(path, lt):
            return self.sel(self.sel(self.reg(st, ('MV', mt, path, lt)), m), key)
        v = self.rd(st, mk, et)
        return mergev(ok, v, z), ok

    def i_MapUpdate(self, fr, st, ins):
        m, k, v = self.val(st, ins['m']), self.val(st, ins['key']), self.val(st, ins['val'])
        mt = self.T.ukey(ins['m']['t'])
        self.mapset(st, m, k, v, mt, ins)

    def mapset(self, st, m, k, v, mt, ins=None):
        self.ob(st, m != 0, 'nil', 'write to a nil map', ins)
        k = self.unwrap(st, k, self.T.u(mt)['key'])
        if self.in_init:
            self.const_maps.setdefault(z3.simplify(m).as_long(), {})[(k.get_id(), k)] = v
            return
        d = ('MD', mt)
        st.heap[d] = self.upd(self.reg(st, d), m, self.upd(self.sel(self.reg(st, d), m), k, z3.BoolVal(True)))

        def w(path, lt, term):
            key = ('MV', mt, path, lt)
            st.heap[key] = self.upd(self.reg(st, key), m, self.upd(self.sel(self.reg(st, key), m), k, term))
        self.wrv(st, w, v, self.T.norm(self.T.u(mt)['e']))

    def i_MakeMap(self, fr, st, ins):
        r = self.alloc(st)
        mt = self.T.ukey(ins['t'])
        if self.in_init:
            self.const_maps[z3.simplify(r).as_long()] = {}
            return z3.simplify(r)
        st.heap[('MD', mt)] = self.upd(self.reg(st, ('MD', mt)), r, z3.K(self.sort(self.T.u(mt)['key']), z3.BoolVal(False)))
        return r

    def i_MakeSlice(self, fr, st, ins):
        n, c = self.val(st, ins['len']), self.val(st, ins['cap'])
        et = self.elem(ins['t'])
        size = self.sizeof(et)
        lim = MAXLEN // max(size, 1)
        self.ob(st, AND(n >= 0, n <= c, c <= lim), 'make', 'makeslice: length out of range', ins)
        r = self.alloc(st)
        for path, lt in self.leaves(et):
            z = z3.K(INT, self.unwrap(st, self.zero(lt), lt))
            st.heap[('E', et, path, lt)] = self.upd(self.reg(st, ('E', et, path, lt)), r, z)
        return s_mk(r, I(0), n, c)

    def sizeof(self, t):
        k = self.kind(t)
        if k == 'int':
            return self.intinfo(t)[0] // 8
        if k == 'float':
            return self.fbits(t) // 8
        return {'bool': 1, 'string': 16, 'slice': 24, 'iface': 16, 'struct': 64, 'array': 64}.get(k, 8)

    def i_Slice(self, fr, st, ins):
        x = self.val(st, ins['x'])
        g = lambda k: self.val(st, ins[k]) if ins.get(k) else None
        lo, hi, mx = g('lo'), g('hi'), g('max')
        k = self.kind(ins['x']['t'])
        l = lo if lo is not None else I(0)
        if k == 'string':
            h = hi if hi is not None else str_len(x)
            self.ob(st, AND(l >= 0, l <= h, h <= str_len(x)), 'slice', 'string slice bounds out of range', ins)
            if hi is None and z3.is_app(x) and x.decl().eq(str_sub):
                return str_sub(x.arg(0), z3.simplify(x.arg(1) + l), x.arg(2))     # a slice that exists is within bounds
            return self.substr(x, l, h)
        if k == 'slice':
            if isinstance(x, CellSlice):
                raise Unsupported('reslicing of a local array')
            h = hi if hi is not None else s_len(x)
            m = mx if mx is not None else s_cap(x)
            self.ob(st, AND(l >= 0, l <= h, h <= m, m <= s_cap(x)), 'slice', 'slice bounds out of range', ins)
            return s_mk(s_ref(x), self.addn(s_off(x), l), self.addn(h, -l) if not z3.is_int_value(l) else self.addn(h, I(-l.as_long())),
                        self.addn(m, -l) if not z3.is_int_value(l) else self.addn(m, I(-l.as_long())))
        at = self.T.u(ins['x']['t'])['e']
        n = self.T.u(at)['n']
        h = hi if hi is not None else I(n)
        m = mx if mx is not None else I(n)
        self.ob(st, AND(l >= 0, l <= h, h <= m, m <= n), 'slice', 'slice bounds out of range', ins)
        if isinstance(x, PArr):
            return s_mk(x.ref, l, z3.simplify(h - l), z3.simplify(m - l))
        if isinstance(x, PCell) and not x.path:
            l, h = z3.simplify(l), z3.simplify(h)
            if z3.is_int_value(l) and z3.is_int_value(h):
                return CellSlice(x.cell, l.as_long(), h.as_long())
        raise Unsupported('slice of ' + type(x).__name__)

    def substr(self, x, l, h):
        if z3.is_int_value(l) and l.as_long() == 0 and h.eq(str_len(x)):
            return x
        b = smt.lit_of(x)
        l, h = z3.simplify(l), z3.simplify(h)
        if b is not None and z3.is_int_value(l) and z3.is_int_value(h):
            return smt.strlit(b[l.as_long():h.as_long()])
        if z3.is_app(x) and x.decl().eq(str_sub):
            return str_sub(x.arg(0), z3.simplify(x.arg(1) + l), z3.simplify(x.arg(1) + h))
        return str_sub(x, l, h)

    def i_Store(self, fr, st, ins):
        p, v = self.val(st, ins['addr']), self.val(st, ins['val'])
        self.store(st, p, v, self.T.u(ins['addr']['t'])['e'], ins)

    def i_UnOp(self, fr, st, ins):
        x = self.val(st, ins['x'])
        tok, t = ins['tok'], ins['t']
        if tok == '*':
            return self.load(st, x, t, ins)
        if tok == '-':
            if self.kind(t) == 'int':
                return self.norm(st, -x if not z3.is_int_value(x) else I(-x.as_long()), t)
            return self.fm.neg(self.fbits(t), x)
        if tok == '!':
            return z3.simplify(NOT(x))
        if tok == '^':
            b, s = self.intinfo(t)
            return self.norm(st, -x - 1, t) if s else z3.simplify(I((1 << b) - 1) - x)
        raise Unsupported('unary ' + tok)

    def i_BinOp(self, fr, st, ins):
        x, y = self.val(st, ins['x']), self.val(st, ins['y'])
        return self.binop(st, ins['tok'], x, y, ins['x'].get('t') or ins['y'].get('t'), ins['t'], ins)

    def binop(self, st, tok, x, y, xt, rt, ins):
        k = self.kind(xt)
        if tok in ('==', '!='):
            e = self.equal(x, y, xt)
            return e if tok == '==' else z3.simplify(NOT(e))
        if k == 'int':
            if tok in ('<', '<=', '>', '>='):
                return z3.simplify({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok])
            return self.intop(st, tok, x, y, rt, ins)
        if k == 'float':
            b = self.fbits(xt)
            self.fm.ctx = (self, st)
            try:
                if tok in ('<', '<=', '>', '>='):
                    return self.fm.cmp(tok, b, x, y)
                return self.fm.binop(tok, b, x, y)
            finally:
                self.fm.ctx = None
        if k == 'string':
            if tok == '+':
                a, b = smt.lit_of(x), smt.lit_of(y)
                if a is not None and b is not None:
                    return smt.strlit(a + b)
                return str_cat(x, y)
            if tok == '<':
                return smt.str_lt(x, y)
            if tok == '>':
                return smt.str_lt(y, x)
            if tok == '<=':
                return NOT(smt.str_lt(y, x))
            if tok == '>=':
                return NOT(smt.str_lt(x, y))
        if k == 'bool':
            if tok in ('&', '&&'):
                return AND(x, y)
            if tok in ('|', '||'):
                return OR(x, y)
        raise Unsupported('operator %s on %s' % (tok, xt))

    def equal(self, x, y, t):
        k = self.kind(t)
        if k == 'float':
            return self.fm.cmp('==', self.fbits(t), x, y)
        if k == 'struct':
            return z3.simplify(AND(*[self.equal(a, b, ft) for a, b, (n, ft) in zip(x.vals, y.vals, self.fields(t))]))
        if k == 'array':
            return z3.simplify(AND(*[self.equal(a, b, self.elem(t)) for a, b in zip(x.vals, y.vals)]))
        if k == 'slice':
            # only comparison with nil is legal
            for a, b in ((x, y), (y, x)):
                if isinstance(b, CellSlice):
                    return z3.BoolVal(False)
            z = self.zero(t)
            if y.eq(z):
                return z3.simplify(s_ref(x) == 0)
            return z3.simplify(s_ref(y) == 0)
        if k == 'func':
            nx, ny = (isinstance(v, FnRef) and v.name is None for v in (x, y))
            if nx or ny:
                o = y if nx else x
                if isinstance(o, (Closure,)) or (isinstance(o, FnRef) and o.name is not None):
                    return z3.BoolVal(False)
                if isinstance(o, FnRef):
                    return z3.BoolVal(True)
                return z3.Const('isnil_' + o.name, BOOL) if isinstance(o, FnSym) else z3.BoolVal(False)
            raise Unsupported('function comparison')
        if k == 'iface':
            a = x.term if isinstance(x, VIface) else x
            b = y.term if isinstance(y, VIface) else y
            if isinstance(x, VIface) and isinstance(y, VIface) and x.dt and y.dt and not self.T.u(x.dt)['k'] == 'ptr':
                raise Unsupported('comparison of interface values with dynamic values')
            return z3.simplify(a == b)
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if x.sort() == STR:
                a, b = smt.lit_of(x), smt.lit_of(y)
                if a is not None and b is not None:
                    return z3.BoolVal(a == b)
            return z3.simplify(x == y)
        if k == 'ptr':
            px, py = self.isnilptr(x), self.isnilptr(y)
            if px or py:
                return z3.BoolVal(px and py)
            if same(x, y):
                return z3.BoolVal(True)
        raise Unsupported('comparison of ' + t)

    def isnilptr(self, p):
        return isinstance(p, z3.ExprRef) and z3.is_int_value(p) and p.as_long() == 0

    def i_Convert(self, fr, st, ins):
        return self.convert(st, self.val(st, ins['x']), ins['x']['t'], ins['t'], ins)

    def convert(self, st, x, frm, to, ins=None):
        a, b = self.kind(frm), self.kind(to)
        if a == 'int' and b == 'int':
            return self.norm(st, x, to)
        if a == 'int' and b == 'float':
            return self.fm.from_int(self.fbits(to), x)
        if a == 'float' and b == 'float':
            return self.fm.conv(self.fbits(frm), self.fbits(to), x)
        if a == 'float' and b == 'int':
            bits, s = self.intinfo(to)
            lo, hi = rng(bits, s)
            return self.fm_to_int(st, x, self.fbits(frm), to)
        if a == b and a in ('string', 'ptr', 'slice', 'map', 'struct', 'iface', 'func'):
            return x
        if b == 'string' and a == 'slice':
            return self.ext.bytes_to_string(self, st, x)
        if a == 'string' and b == 'slice':
            return self.ext.string_to_bytes(self, st, x, to)
        raise Unsupported('conversion %s -> %s' % (frm, to))

    def fm_to_int(self, st, x, fb, to):
        """float to integer conversion. Out of range values and NaN are implementation
        defined in Go; on this platform NaN -> uint8 is 0 (see DESIGN.md)"""
        bits, s = self.intinfo(to)
        lo, hi = rng(bits, s)
        v = self.fm.to_int(fb, x)
        if z3.is_int_value(v) and lo <= v.as_long() <= hi:
            return v
        if self.fm.mode == 'real':
            und = z3.Function('cvt_%d%s' % (bits, 's' if s else 'u'), self.fm.sort(64), INT)
            fin = self.fm.finite(x)
            nanv = I(0) if (bits < 32) else I(-(1 << 63)) if s else und(x)
            r = ite(z3.simplify(self.fm.isnan(64, x)), nanv, ite(z3.simplify(AND(fin, v >= lo, v <= hi)), v, und(x)))
            st.assume(AND(und(x) >= lo, und(x) <= hi))
            self.bnd[r.get_id()] = (r, lo, hi)
            return r
        f = self.fm.fn('f%d_toint_%d%s' % (fb, bits, 's' if s else 'u'), self.fm.sort(fb), INT)
        r = f(x)
        st.assume(AND(r >= lo, r <= hi))
        self.bnd[r.get_id()] = (r, lo, hi)
        return r

    def i_ChangeType(self, fr, st, ins):
        return self.val(st, ins['x'])

    def i_ChangeInterface(self, fr, st, ins):
        return self.val(st, ins['x'])

    def i_MakeInterface(self, fr, st, ins):
        x = self.val(st, ins['x'])
        xt = self.T.norm(ins['x']['t'])
        if isinstance(x, z3.ExprRef) and self.kind(xt) == 'ptr':
            # identity of the pointer; a nil pointer in an interface is not nil
            if self.entails(st, x != 0):
                return VIface(x, xt, x)
            return VIface(ite(z3.simplify(x == 0), I(1), x), xt, x)
        c = fresh('ifc', INT)
        st.assume(AND(c >= 1, c <= st.alloc) if not self.in_init else c >= 1)
        return VIface(c, xt, x)

    def i_TypeAssert(self, fr, st, ins):
        x = self.val(st, ins['x'])
        t = ins['asserted']
        tt = ins['t']
        if isinstance(x, VIface) and x.dt is not None and self.kind(t) != 'iface':
            ok = self.T.norm(t) == self.T.norm(x.dt)
            if ins['commaok']:
                return VTuple([x.val if ok else self.zero(t), z3.BoolVal(ok)])
            if ok:
                return x.val
        if ins['commaok']:
            b = fresh('assertok', BOOL)
            v = self.symval(st, t, 'asserted')
            return VTuple([v, b])
        self.ob(st, z3.BoolVal(False), 'assert', 'type assertion may fail', ins)
        return self.symval(st, t, 'asserted')

    def i_MakeClosure(self, fr, st, ins):
        return Closure(ins['fn']['n'], [self.val(st, b) for b in ins['bind']])

    def i_Extract(self, fr, st, ins):
        return self.val(st, ins['x']).vals[ins['i']]

    def i_Range(self, fr, st, ins):
        x = self.val(st, ins['x'])
        return VIter(self.kind(ins['x']['t']), x, I(0), ins['x']['t'])

    def i_Next(self, fr, st, ins):
        r = ins['x']['n']
        it = self.val(st, ins['x'])
        if it.kind == 'string':
            s, p = it.coll, it.pos
            ok = z3.simplify(p < str_len(s))
            b = str_at(s, p)
            w = z3.Function('rune_width', STR, INT, INT)(s, p)
            ru = z3.Function('rune_at', STR, INT, INT)(s, p)
            st.assume(IMP(ok, AND(p >= 0, w >= 1, w <= 4, p + w <= str_len(s), ru >= 0, ru <= 0x10FFFF, b >= 0, b <= 255,
                                  IMP(b < 128, AND(w == 1, ru == b)), IMP(b >= 128, ru >= 128))))
            self.bnd[ru.get_id()] = (ru, 0, 0x10FFFF)
            st.regs[r] = VIter(it.kind, s, self.addn(p, w), it.t)
            return VTuple([ok, p, ru])
        raise Unsupported('range over map')

    def i_DebugRef(self, fr, st, ins):
        return None

    def i_Defer(self, fr, st, ins):
        st.defers.append(ins)

    def i_RunDefers(self, fr, st, ins):
        sts = [st]
        ds = list(reversed(st.defers))
        for d in ds:
            nxt = []
            for s in sts:
                nxt += [x for x, _ in self.do_call(fr, s, d)]
            sts = nxt
        for s in sts:
            s.defers = []
        return [(s, None) for s in sts]

    # ------------------------------------------------------------ calls

    def i_Call(self, fr, st, ins):
        return self.do_call(fr, st, ins)

    def do_call(self, fr, st, ins):
        c = ins['call']
        args = [self.val(st, a) for a in c['args']]
        if 'invoke' in c:
            recv = self.val(st, c['recv'])
            return self.invoke(fr, st, recv, c['recvt'], c['invoke'], args, c, ins)
        f = self.val(st, c['fn'])
        return self.apply(fr, st, f, args, c, ins)

    def rettype(self, sig):
        rs = self.T.u(sig)['results']
        return rs

    def pack(self, vs):
        if len(vs) == 1:
            return vs[0]
        return VTuple(vs)

    def invoke(self, fr, st, recv, rt, name, args, c, ins):
        if isinstance(recv, VIface) and recv.dt is not None:
            # static dispatch on the known dynamic type
            dt = recv.dt
            fname = '(%s).%s' % (dt, name)
            if fname in self.prog.fns and not self.prog.fns[fname].external:
                return self.apply(fr, st, FnRef(fname), [recv.val] + args, c, ins)
            h = self.ext.lookup(fname)
            if h:
                self.used_ext.add(fname)
                return [(s, self.pack(vs)) for s, vs in h(self, st, [recv.val] + args, ins, c)]
        h = self.ext.lookup('invoke:' + name)
        if h:
            self.ob(st, recv.term != 0, 'nil', 'method call on a nil interface', ins)
            self.used_ext.add('interface method ' + name)
            return [(s, self.pack(vs)) for s, vs in h(self, st, [recv] + args, ins, c)]
        raise Unsupported('dynamic call of method ' + name)

    def apply(self, fr, st, f, args, c, ins):
        if isinstance(f, FnIte):
            out = []
            for cond, g in f.alts:
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                s = st.copy()
                s.assume(cond, 'b')
                if not self.quiet and self.prover.check(s.facts(), z3.BoolVal(False), 300) == 'proved':
                    continue
                out += self.apply(fr, s, g, list(args), c, ins)
            for s, v in out:
                s.regs['$call'] = v
            ms = self.join_states([s for s, _ in out])
            return [(s, s.regs.pop('$call')) for s in ms]
        if isinstance(f, FnSym):
            return [(st, self.app_unknown(st, f, args, c))]
        binds = None
        if isinstance(f, Closure):
            name, binds = f.name, f.binds
        else:
            name = f.name
        if name is None:
            self.ob(st, z3.BoolVal(False), 'nil', 'call of a nil function', ins)
            return []
        if name.startswith('builtin:'):
            return self.builtin(fr, st, name[8:], args, c, ins)
        h = self.ext.lookup(name)
        if h:
            self.used_ext.add(name)
            return [(s, self.pack(vs)) for s, vs in h(self, st, args, ins, c)]
        fn = self.prog.fns.get(name)
        if fn is None:
            raise Unsupported('unknown function ' + name)
        ct = self.specs.for_fn(fn) if binds is None else None
        if ct is not None and args and all(isinstance(a, z3.ExprRef) and z3.is_int_value(a) for a in args):
            ct = None           # constant arguments: executed in place
        if ct is not None and self.top is not None and name in self.top.contract.expand:
            ct = None
        if ct is not None and not self.in_init and not ct.inline:
            self.used_contracts.add(name)
            return [(s, self.pack(vs)) for s, vs in self.call_contract(fr, st, fn, ct, args, ins)]
        if not fn.external and (self.prog.is_local(fn.pkg) or fn.pkg in self.ext.INLINE_PKGS or fn.d.get('synthetic')):
            if fn.d.get('synthetic') and len(fn.blocks) and fn.name.endswith('.init') and not self.prog.is_local(fn.pkg):
                return [(st, None)]
            self.inlined.add(name)
            rs = self.run_fn(st, fn, args, fr.top if fr else None, (fr.depth if fr else 0) + 1, binds)
            return [(s, self.pack(vs)) for s, vs in rs]
        if self.in_init and name.endswith('.init'):
            return [(st, None)]
        r = self.ext.fallback(self, st, name, fn, args, c, ins)
        if r is not None:
            self.used_ext.add(name)
            return [(s, self.pack(vs)) for s, vs in r]
        raise Unsupported('call of external function ' + name)

    def join_states(self, sts):
        out = []
        for s in sts:
            for k in range(len(out)):
                try:
                    out[k] = merge(out[k], s, h0=self.h0m)
                    break
                except Unmergeable:
                    continue
            else:
                out.append(s)
        return out

    def app_unknown(self, st, f, args, c):
        """application of an unknown pure function"""
        rs = [self.T.norm(t) for t in self.T.u(c['sig'])['results']]
        ps = [self.T.norm(t) for t in self.T.u(c['sig'])['params']]
        terms = [self.unwrap(st, a, t) for a, t in zip(args, ps)]
        vals = []
        for k, rt in enumerate(rs):
            def mk(path, lt, k=k):
                nm = 'app_%s_%d%s' % (f.name, k, ''.join('_%d' % p for p in path))
                g = z3.Function(nm, *([x.sort() for x in terms] + [self.sort(lt)]))
                r = g(*terms)
                tf = self.typefact(r, lt, None)
                if tf is not None and not smt.has_var(r):
                    st.assume(tf)
                self.setbnd(r, lt)
                return r
            vals.append(self.rd(st, mk, rt))
        return self.pack(vals)

    def builtin(self, fr, st, name, args, c, ins):
        if name == 'len':
            x = args[0]
            t = c['args'][0]['t']
            return [(st, self.length(st, x, t))]
        if name == 'cap':
            x = args[0]
            if isinstance(x, CellSlice):
                return [(st, I(x.hi - x.lo))]
            return [(st, s_cap(x))]
        if name == 'append':
            return [(st, self.ext.append(self, st, args, c, ins))]
        if name == 'copy':
            return [(st, self.ext.copy(self, st, args, c, ins))]
        if name in ('min', 'max'):
            t = c['args'][0]['t']
            r = args[0]
            for a in args[1:]:
                if self.kind(t) == 'int':
                    r = z3.If(a < r, a, r) if name == 'min' else z3.If(a > r, a, r)
                elif self.kind(t) == 'float':
                    b = self.fbits(t)
                    c1 = self.fm.cmp('<' if name == 'min' else '>', b, a, r)
                    r = ite(OR(self.fm.isnan(b, a), self.fm.isnan(b, r)), self.fm.nan(b), ite(c1, a, r))
                else:
                    raise Unsupported('min/max')
            return [(st, r)]
        if name == 'delete':
            mt = self.T.ukey(c['args'][0]['t'])
            d = ('MD', mt)
            m, k = args
            st.heap[d] = self.upd(self.reg(st, d), m, self.upd(self.sel(self.reg(st, d), m), k, z3.BoolVal(False)))
            return [(st, None)]
        if name in ('print', 'println'):
            return [(st, None)]
        if name == 'ssa:wrapnilchk':
            return [(st, args[0])]
        raise Unsupported('builtin ' + name)

    def length(self, st, x, t):
        k = self.kind(t)
        if k == 'string':
            b = smt.lit_of(x)
            if b is not None:
                return I(len(b))
            if z3.is_app(x) and x.decl().eq(str_sub):
                # in bounds by construction of the program's slices
                pass
            return str_len(x)
        if k == 'slice':
            return I(x.hi - x.lo) if isinstance(x, CellSlice) else s_len(x)
        if k == 'map':
            r = z3.Function('map_len', INT, INT)(x)
            return r
        if k == 'array':
            return I(self.T.u(t)['n'])
        if k == 'ptr':
            return I(self.T.u(self.T.u(t)['e'])['n'])
        raise Unsupported('len of ' + t)

    # ------------------------------------------------------------ contracts at call sites

    def call_contract(self, fr, st, fn, ct, args, ins):
        from .spec import Eval
        env = ct.bind(args, fn)
        ev = Eval(self, st, st, env, ct)
        short = ct.short
        for k, r in enumerate(ct.requires):
            for g in ev.goals(r.expr):
                self.ob(st, g, 'requires', '%s requires %s' % (short, r.text), ins, props=self.top.contract.allprops if self.top else None)
        old = st.copy()
        writes, allocs = self.effects(fn)
        mods = ct.eval_modifies(self, Eval(self, old, old, env, ct))
        a1 = st.alloc
        if allocs:
            a1 = fresh('alloc', INT)
            st.assume(a1 >= st.alloc)
            st.alloc = a1
        preds = {}
        for m in mods:
            if m.pred is not None:
                preds.setdefault(m.key, []).append(m)
        r = z3.Int('r!')
        for key in set(preds) | {k for k in allocs if k != 'any'}:
            cur = self.reg(st, key)
            new = self.new_region(key, smt.freshname('~'), a1)
            keep = r <= old.alloc
            for m in preds.get(key, []):
                keep = AND(keep, NOT(m.pred(r)))
            st.assume(FA([r], IMP(keep, z3.Select(new, r) == z3.Select(cur, r)), patterns=[z3.Select(new, r)]))
            st.heap[key] = new
        for m in mods:
            if m.pred is None:
                self.havoc_ref(st, m.key, m.ref, m.lo, m.hi, a1)
        vals = []
        defs = ct.definitions()
        res = []
        ev2 = Eval(self, st, old, env, ct)
        for i, (n, t) in enumerate(fn.results):
            nm = ct.results[i][0]
            d = defs.get(nm)
            if d is not None:
                try:
                    v = ev2.value(d, t)
                except Exception as e:
                    raise Unsupported('definition of %s: %s' % (nm, e))
            else:
                v = self.symval(st, t, short + '.' + nm, a1)
            res.append(v)
            env[nm] = (v, t)
        for e in ct.ensures:
            if e.defines or (self.top is not None and self.top.contract.focus is not None and not self.top.contract.focus & set(e.props)):
                continue
            for g in ev2.facts(e.expr):
                st.assume(g)
        for e in ct.assumed + ct.ghosts:
            for g in ev2.facts(e.expr):
                st.assume(g)
        return [(st, res)]

    # ------------------------------------------------------------ frames of the function being verified

    def top_mods(self, top):
        if self._tm is None or self._tm[0] is not top:
            from .spec import Eval
            self._tm = (top, top.contract.eval_modifies(self, Eval(self, top.entry, top.entry, top.env, top.contract)))
        return self._tm[1]

    def in_mods(self, top, key, r):
        c = []
        for m in self.top_mods(top):
            if m.key == key:
                c.append(m.pred(r) if m.pred is not None else r == m.ref)
        return OR(*c) if c else z3.BoolVal(False)

    def havoc_ref(self, st, key, ref, lo, hi, alloc):
        """havocs one object of a region (elements lo..hi of the row for slices)"""
        cur = self.reg(st, key)
        if key[0] in ('F', 'G'):
            if key[0] == 'F':
                v = fresh(self.region_name(key), self.sort(key[3]))
                f = self.typefact(v, key[3], alloc)
                if f is not None:
                    st.assume(f)
                self.setbnd(v, key[3])
            else:
                v = fresh('G.' + key[1], self.region_sort(key).range())
            st.heap[key] = self.upd(cur, ref, v)
            return
        row = fresh(self.region_name(key) + '.row', self.region_sort(key).range())
        j = z3.Int('j!')
        if key[0] == 'E':
            f = self.typefact(z3.Select(row, j), key[3], alloc)
            if f is not None:
                st.assume(FA([j], f, patterns=[z3.Select(row, j)]))
            if lo is not None:
                st.assume(FA([j], IMP(OR(j < lo, j >= hi), z3.Select(row, j) == z3.Select(self.sel(cur, ref), j)),
                             patterns=[z3.Select(row, j)]))
        st.heap[key] = self.upd(cur, ref, row)

    def effects(self, fn, seen=None):
        """(regions written, regions in which new objects may appear), by type, transitively"""
        if fn.name in self._eff_cache():
            return self._eff[fn.name]
        seen = seen or set()
        if fn.name in seen:
            return set(), set()
        seen = seen | {fn.name}
        W, A = set(), set()
        for b in fn.blocks:
            for ins in b['i']:
                op = ins['op']
                if op == 'Alloc':
                    t = self.T.norm(self.T.u(ins['t'])['e'])
                    if self.is_heap_struct(t):
                        A |= {('F', t, p, lt) for p, lt in self.leaves(t)}
                    elif self.kind(t) == 'array' and self.kind(self.elem(t)) not in ('iface', 'func') and (self.T.u(t)['n'] > 16 or self.sliced(fn, ins['r'])):
                        et = self.elem(t)
                        A |= {('E', et, p, lt) for p, lt in self.leaves(et)}
                elif op == 'MakeSlice':
                    et = self.elem(ins['t'])
                    A |= {('E', et, p, lt) for p, lt in self.leaves(et)}
                elif op == 'MakeMap':
                    mt = self.T.ukey(ins['t'])
                    A |= {('MD', mt)} | {('MV', mt, p, lt) for p, lt in self.leaves(self.T.u(mt)['e'])}
                elif op in ('Call', 'Defer'):
                    c = ins['call']
                    if 'fn' in c and c['fn'] and c['fn']['v'] == 'builtin' and c['fn']['n'] == 'append':
                        et = self.elem(c['args'][0]['t'])
                        A |= {('E', et, p, lt) for p, lt in self.leaves(et)}
                    A |= self.ext.alloc_effects(self, c)
                    if 'fn' in c and c['fn'] and c['fn']['v'] == 'func':
                        g = self.prog.fns.get(c['fn']['n'])
                        if g is not None and not g.external and (self.prog.is_local(g.pkg) or g.d.get('synthetic') or g.pkg in self.ext.INLINE_PKGS):
                            w, a = self.effects(g, seen)
                            W |= w
                            A |= a
                        else:
                            A.add('any')
                    elif 'invoke' in c or (c.get('fn') or {}).get('v') not in ('builtin', None):
                        # unknown or table callee: all functions of the program with that signature
                        A.add('any')
                        for g in self.prog.fns.values():
                            if not g.external and self.prog.is_local(g.pkg) and g.d['sig'] == c.get('sig') and 'invoke' not in c:
                                w, a = self.effects(g, seen)
                                A |= a
                        if 'invoke' not in c:
                            # methods used as functions ($thunk)
                            for g in self.prog.fns.values():
                                if g.name.endswith('$thunk') or g.name.endswith('$bound'):
                                    w, a = self.effects(g, seen)
                                    A |= a
                elif op in ('MakeInterface', 'Convert'):
                    A.add('any')
                    if op == 'Convert' and self.kind(ins['t']) == 'slice':
                        et = self.elem(ins['t'])
                        A |= {('E', et, p, lt) for p, lt in self.leaves(et)}
        self._eff[fn.name] = (W, A)
        return W, A

    def _eff_cache(self):
        if not hasattr(self, '_eff'):
            self._eff = {}
        return self._eff

    # ------------------------------------------------------------ loops
    from .loops import do_loop


def short(name):
    return name.replace('gitlab.cs.fau.de/since/radolan/radolan2png/', '').replace('gitlab.cs.fau.de/since/', '')
