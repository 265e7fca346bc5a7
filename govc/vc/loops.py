"""Loops: cut at the header, havoc what the body changes, inductive invariants.

Invariant candidates come from the contract (templates, written over the abstraction:
iteration count $n, memory, parameters) and from the loop itself (linear induction
variables, the guard, frames, per-iteration writes). The largest inductive subset is
computed; every invariant that is used has been proved to hold on entry and to be
preserved. Termination needs a measure that is bounded below and decreases."""
import itertools
import re
import time
import z3
from . import smt, ext
from .smt import INT, BOOL, SLICE, I, ite, s_ref, s_off, s_len, s_cap, str_len, fresh
from .state import *
from .ir import Unsupported

AND, OR, NOT, IMP, FA = z3.And, z3.Or, z3.Not, z3.Implies, smt.FA
SER = re.compile(r'!(\d+)$')


class Cand:
    __slots__ = ('name', 'build', 'ms', 'text', 'props')

    def __init__(self, name, build, ms=600, text='', props=()):
        self.name, self.build, self.ms, self.text, self.props = name, build, ms, text, props


def newer(t, ser):
    """mentions a symbol created after serial number ser"""
    for n in smt.decls(t):
        m = SER.search(n)
        if m and int(m.group(1)) > ser:
            return True
    return False


def written(t, base, acc):
    """references stored to between two versions of a region; False if unknown"""
    if t.eq(base):
        return True
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_STORE:
            if not any(x.eq(t.arg(1)) for x in acc):
                acc.append(t.arg(1))
            return written(t.arg(0), base, acc)
        if k == z3.Z3_OP_ITE:
            return written(t.arg(1), base, acc) and written(t.arg(2), base, acc)
    # stores of the older version that were overwritten
    if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE:
        r = base.arg(1)
        if written(t, base.arg(0), acc):
            if not any(x.eq(r) for x in acc):
                acc.append(r)
            return True
    return False


def do_loop(self, fr, h, st):
    fn = fr.fn
    body = fn.loops[h]
    if self.in_init:
        return unroll(self, fr, h, st, 100000)
    r = try_unroll(self, fr, h, st)
    if r is not None:
        return r
    L = Loop(self, fr, h, body, st)
    return L.run()


def header_const(self, fr, h, st):
    """value of the header's branch condition if it is a constant"""
    blk = fr.fn.blocks[h]
    last = blk['i'][-1]
    if last['op'] != 'If' or len(blk['i']) > 12:
        return None
    s = st.copy()
    self.quiet += 1
    n = len(self.prover.cache)
    dry, self.dry = self.dry, True
    try:
        for ins in blk['i']:
            if ins['op'] == 'Phi':
                continue
            if ins['op'] not in ('BinOp', 'UnOp', 'If', 'Convert', 'FieldAddr', 'Call', 'ChangeType'):
                return None
            if ins['op'] == 'Call' and (ins['call'].get('fn') or {}).get('v') != 'builtin':
                return None
            if ins['op'] == 'If':
                c = z3.simplify(self.val(s, ins['x']))
                return True if z3.is_true(c) else False if z3.is_false(c) else None
            rs = self.step(fr, s, ins)
            if len(rs) != 1:
                return None
    except Unsupported:
        return None
    finally:
        self.quiet -= 1
        self.dry = dry
    return None


def try_unroll(self, fr, h, st, limit=24):
    """loops whose condition is decided by constants are executed iteration by iteration"""
    if self.dry:
        return None
    if header_const(self, fr, h, st) is None:
        return None
    # dry attempt: does it end within the limit?
    self.quiet += 1
    try:
        ok = unroll(self, fr, h, st.copy(), limit, probe=True)
    except Unsupported:
        ok = None
    finally:
        self.quiet -= 1
    if ok is None:
        return None
    return unroll(self, fr, h, st, limit)


def unroll(self, fr, h, st, limit, probe=False):
    body = fr.fn.loops[h]
    exits, rets, cur = [], [], [st]
    for k in range(limit + 1):
        nxt = []
        for s in cur:
            if not self.in_init and header_const(self, fr, h, s) is None:
                if probe:
                    return None
                raise Unsupported('unrolling')
            r = self.run_blocks(fr, body, h, [(None, s)])
            exits += r['exits']
            rets += r['rets']
            nxt += [s2 for _, s2 in r['backs']]
        if not nxt:
            return {'exits': exits, 'rets': rets}
        if not self.in_init and len(nxt) > 1:
            nxt = self.join(fr, h, nxt)
            if len(nxt) > 4:
                return None
        cur = nxt
    if self.in_init:
        raise Unsupported('initialiser loop too long')
    return None


class Loop:
    def __init__(self, ex, fr, h, body, st):
        self.ex, self.fr, self.h, self.body, self.pre = ex, fr, h, body, st
        self.phis = [ins for ins in fr.fn.blocks[h]['i'] if ins['op'] == 'Phi']
        self.cells = set()
        self.regions = {}       # key -> list of invariant refs, or None (any object)
        self.alloc = False
        self.ser = smt.serial()
        self.iters = set()
        for b in body:
            for ins in fr.fn.blocks[b]['i']:
                if ins['op'] == 'Next':
                    self.iters.add(ins['x']['n'])
        self.iters = {r for r in self.iters if r in st.regs}
        self.key = (tuple(ex.callstack), h)
        self.lin = {}
        self.sym = {}
        self.cellchg = {}
        self.solved = {}        # slices and strings that move by constants: register -> value after n iterations

    # ------------------------------------------------ header states

    def header(self):
        ex = self.ex
        s = self.pre.copy()
        self.n = fresh('n', INT)
        s.assume(self.n >= 0)
        s.assume(self.n < (1 << 62))
        if self.alloc:
            a = fresh('alloc', INT)
            s.assume(a >= self.pre.alloc)
            s.alloc = a
        self.sym = {}
        for ins in self.phis:
            r = ins['r']
            v = self.pre.regs[r]
            if isinstance(v, (PCell, FnRef, Closure, FnSym, FnIte, CellSlice, PGlob, PArr)):
                if r in self.cellchg:
                    s.regs[r] = Poison('loop-carried pointer or function')
                continue
            if isinstance(v, (PField, PElem)) or isinstance(v, Poison):
                s.regs[r] = Poison('loop-carried pointer')
                continue
            s.regs[r] = ex.symval(s, ins['t'], ins.get('comment') or r, s.alloc)
            if r in self.solved:
                w = self.solved[r](self.n, s.regs[r])
                s.assume(AND(s.regs[r] == w, self.inside(w)))
                s.regs[r] = w
            self.sym[r] = s.regs[r]
        for r in self.iters:
            it = self.pre.regs[r]
            p = fresh('pos', INT)
            s.regs[r] = VIter(it.kind, it.coll, p, it.t)
            self.sym[r] = p
        for c in self.cells:
            nm, t = ex.named_cells[c]
            try:
                s.cells[c] = ex.symval(s, t, nm or 'cell', s.alloc)
                if has_fn(s.cells[c]):
                    s.cells[c] = Poison('function value changed in a loop')
                elif isinstance(s.cells[c], z3.ExprRef):
                    self.sym[('cell', c)] = s.cells[c]
            except Unsupported as e:
                s.cells[c] = Poison(str(e))
        for key, refs in self.regions.items():
            if refs is None:
                s.heap[key] = ex.new_region(key, smt.freshname('~'), s.alloc)
            else:
                for r in refs:
                    ex.havoc_ref(s, key, r, None, None, s.alloc)
                if key[0] == 'F' and len(key) > 3:
                    for i, r in enumerate(refs):
                        v = ex.sel(ex.reg(s, key), r)
                        if isinstance(v, z3.ExprRef) and ex.kind(key[3]) in ('int', 'slice', 'bool'):
                            self.sym[('field', key, i)] = v
        return s

    def runbody(self, s):
        return self.ex.run_blocks(self.fr, self.body, self.h, [(None, s)])

    def discover(self):
        """what the body may change"""
        ex = self.ex
        ex.quiet += 1
        dry, ex.dry = ex.dry, True
        try:
            for rnd in range(12):
                s = self.header()
                hs = s.copy()
                res = self.runbody(s)
                chg = False
                for _, b in res['backs']:
                    if not b.alloc.eq(hs.alloc) and not self.alloc:
                        self.alloc = chg = True
                    for c in hs.cells:
                        if c in b.cells and c not in self.cells and not same(hs.cells[c], b.cells[c]):
                            self.cells.add(c)
                            chg = True
                    for ins in self.phis:
                        r = ins['r']
                        v = self.pre.regs[r]
                        if r not in self.sym and r not in self.cellchg and not isinstance(v, Poison) and not same(b.regs[r], v):
                            self.cellchg[r] = True
                            chg = True
                    for key in b.heap:
                        bt = b.heap[key]
                        ht = ex.reg(hs, key)
                        if bt.eq(ht):
                            continue
                        cur = self.regions.get(key, [])
                        if cur is None:
                            continue
                        acc = []
                        ok = written(bt, ht, acc)
                        if not ok or any(newer(r, self.ser) for r in acc):
                            self.regions[key] = None
                            chg = True
                        else:
                            for r in acc:
                                if not any(r.eq(x) for x in cur):
                                    self.regions.setdefault(key, []).append(r)
                                    chg = True
                self.dryres = (hs, res)
                if not chg:
                    break
            else:
                raise Unsupported('loop effects do not stabilise')
        finally:
            ex.quiet -= 1
            ex.dry = dry
        return hs, res

    def solve(self, hs, res):
        """slices and strings whose start, length or end move by a constant in every iteration"""
        ex = self.ex
        for ins in self.phis:
            r = ins['r']
            k = ex.kind(ins['t'])
            v, v0 = hs.regs.get(r), self.pre.regs.get(r)
            if r not in self.sym or k not in ('slice', 'string') or not isinstance(v, z3.ExprRef) or not isinstance(v0, z3.ExprRef) or not res['backs']:
                continue
            ws = [b.regs.get(r) for _, b in res['backs']]
            if any(not isinstance(w, z3.ExprRef) for w in ws):
                continue
            delta = lambda f, w: z3.simplify(f(w) - f(v))
            if k == 'slice':
                parts = []
                for f in (s_off, s_len, s_cap):
                    ds = [delta(f, w) for w in ws]
                    parts.append(ds[0].as_long() if all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds) else None)
                keep = all(z3.simplify(s_ref(w)).eq(z3.simplify(s_ref(v))) for w in ws)
                if parts[1]:
                    def val(n, v, keep=keep, parts=parts, v0=v0):
                        c = [f(v) if d is None else z3.simplify(ex.addn(f(v0), self.times(d, n)) if d else f(v0)) for f, d in zip((s_off, s_len, s_cap), parts)]
                        return smt.s_mk(z3.simplify(s_ref(v0)) if keep else s_ref(v), *c)
                    self.solved[r] = val
            else:
                ab = set()
                for w in ws:
                    if not (z3.is_app(w) and w.decl().eq(smt.str_sub) and w.arg(0).eq(v)):
                        ab = None
                        break
                    a, b = z3.simplify(w.arg(1)), z3.simplify(w.arg(2) - str_len(v))
                    if not z3.is_int_value(a) or not z3.is_int_value(b):
                        ab = None
                        break
                    ab.add((a.as_long(), b.as_long()))
                if ab and len(ab) == 1:
                    a, b = ab.pop()
                    if z3.is_app(v0) and v0.decl().eq(smt.str_sub):
                        base, lo, hi = v0.children()
                    else:
                        base, lo, hi = v0, I(0), str_len(v0)
                    self.solved[r] = lambda n, v, base=base, lo=lo, hi=hi, a=a, b=b: smt.str_sub(
                        base, z3.simplify(ex.addn(lo, self.times(a, n))) if a else lo, z3.simplify(ex.addn(hi, self.times(b, n))) if b else hi)

    @staticmethod
    def inside(w):
        """bounds of the part of a string"""
        if w.sort() == smt.STR and z3.is_app(w) and w.decl().eq(smt.str_sub):
            x, l, h = w.children()
            return AND(l >= 0, l <= h, h <= str_len(x))
        return z3.BoolVal(True)

    def unsolved(self, res):
        """drops what the body does not in fact move that way"""
        bad = []
        for r, f in self.solved.items():
            w0 = f(I(0), self.pre.regs[r])
            g = z3.simplify(AND(w0 == self.pre.regs[r], self.inside(w0)))
            if not z3.is_true(g) and self.ex.prover.check(self.pre.facts(), g, 1500) != 'proved':
                bad.append(r)
                continue
            for _, b in res['backs']:
                w = b.regs.get(r)
                if not isinstance(w, z3.ExprRef):
                    bad.append(r)
                    break
                w1 = f(self.n + 1, w)
                g = z3.simplify(AND(w == w1, self.inside(w1)))
                if not z3.is_true(g) and self.ex.prover.check(b.facts(), g, 1500) != 'proved':
                    bad.append(r)
                    break
        for r in bad:
            del self.solved[r]
        return bool(bad)

    # ------------------------------------------------ candidates

    def lvars(self):
        """loop-carried variables: registers and cells (variables that are captured or addressed)"""
        out = [(i['r'], i.get('comment') or i['r'], i['t'], self.pre.regs[i['r']]) for i in self.phis if i['r'] in self.sym]
        out += [(('cell', c), self.ex.named_cells[c][0] or 'cell', self.ex.named_cells[c][1], self.pre.cells[c]) for c in sorted(self.cells) if ('cell', c) in self.sym]
        out += [(q, self.ex.region_name(q[1]), q[1][3], self.phival(self.pre, q)) for q in self.sym if isinstance(q, tuple) and q[0] == 'field']
        return out

    def find_linear(self, hs, res):
        """variables that change by the same amount in every iteration: a number or a term of the entry"""
        self.lin = {}
        for r, nm, t, v0 in self.lvars():
            v = self.phival(hs, r)
            if not (isinstance(v, z3.ExprRef) and v.sort() == INT) or self.ex.kind(t) != 'int':
                continue
            cs = []
            for _, b in res['backs']:
                w = self.phival(b, r)
                d = z3.simplify(w - v) if isinstance(w, z3.ExprRef) else None
                if d is not None and not z3.is_int_value(d) and newer(d, self.ser):
                    d = z3.simplify(z3.substitute(d, *self.prememory(hs)))   # memory the loop does not change there
                    if newer(d, self.ser):
                        d = None
                cs.append(d)
            if cs and cs[0] is not None and all(d is not None and d.eq(cs[0]) for d in cs):
                self.lin[r] = cs[0].as_long() if z3.is_int_value(cs[0]) else cs[0]

    @staticmethod
    def times(c, n):
        return n if isinstance(c, int) and c == 1 else (I(c) if isinstance(c, int) else c) * n

    @staticmethod
    def neg(c):
        return I(-c) if isinstance(c, int) else -c

    def guard(self, hs):
        """conditions under which the header block continues into the loop"""
        ex = self.ex
        ex.quiet += 1
        dry, ex.dry = ex.dry, True
        try:
            s = hs.copy()
            k = len(s.path)
            outs = ex.run_block(self.fr, self.h, s)
            ins = [o for o in outs if o[0] == 'go' and o[1] in self.body]
            if len(ins) != 1:
                return []
            return [t for kd, t in ins[0][2].path[k:] if kd == 'b']
        except Unsupported:
            return []
        finally:
            ex.quiet -= 1
            ex.dry = dry

    def phival(self, s, r):
        if isinstance(r, tuple) and r[0] == 'field':
            return self.ex.sel(self.ex.reg(s, r[1]), self.regions[r[1]][r[2]])
        if isinstance(r, tuple):
            return s.cells[r[1]]
        v = s.regs.get(r)
        if isinstance(v, VIter):
            return v.pos
        return v

    def auto(self, hs, res):
        ex = self.ex
        pre = self.pre
        C = []
        self.find_linear(hs, res)
        hsym = dict(self.sym)
        for r, nm, t, v0 in self.lvars():
            k = ex.kind(t)
            if not isinstance(v0, z3.ExprRef):
                continue
            get = lambda s, r=r: self.phival(s, r)
            if k == 'int':
                if r in self.lin:
                    c = self.lin[r]
                    C.append(Cand('linear %s' % (r,), lambda s, n, pol, get=get, c=c, v0=v0: get(s) == ex.addn(v0, self.times(c, n)), text='%s advances by %s' % (nm, c)))
                if r not in self.lin or not isinstance(self.lin[r], int):
                    C.append(Cand('nonneg %s' % (r,), lambda s, n, pol, get=get: get(s) >= 0, text='%s >= 0' % nm))
                    C.append(Cand('nonzero %s' % (r,), lambda s, n, pol, get=get: get(s) != 0, text='%s is not 0' % nm))
                    C.append(Cand('up %s' % (r,), lambda s, n, pol, get=get, v0=v0: get(s) >= v0, text='%s >= initial value' % nm))
                    C.append(Cand('down %s' % (r,), lambda s, n, pol, get=get, v0=v0: get(s) <= v0, text='%s <= initial value' % nm))
            elif k == 'slice':
                self.slicecands(C, nm, get, v0)
            elif k == 'bool':
                C.append(Cand('first %s' % (r,), lambda s, n, pol, get=get, v0=v0: IMP(n == 0, get(s) == v0), text='%s initially' % nm))
        for r in self.iters:
            it = pre.regs[r]
            if it.kind == 'string':
                C.append(Cand('pos %s' % r, lambda s, n, pol, r=r: AND(s.regs[r].pos >= 0, s.regs[r].pos <= str_len(s.regs[r].coll),
                                                                       IMP(n >= 1, s.regs[r].pos >= 1), IMP(n == 0, s.regs[r].pos == 0)), text='iterator inside the string'))
        # order between loop-carried integers
        ints = [(r, lambda s, r=r: self.phival(s, r)) for r, nm, t, v0 in self.lvars() if ex.kind(t) == 'int' and isinstance(v0, z3.ExprRef)]
        ints += [('pos', lambda s, r=r: s.regs[r].pos) for r in self.iters if pre.regs[r].kind == 'string']
        if 2 <= len(ints) <= 6:
            for na, ga in ints:
                for nb, gb in ints:
                    if na != nb and not (na in self.lin and nb in self.lin):
                        C.append(Cand('order %s %s' % (na, nb), lambda s, n, pol, ga=ga, gb=gb: ga(s) <= gb(s), 300, text='%s <= %s' % (na, nb)))
        # the guard held in the previous iteration
        gs = self.guard(hs)
        self.guards = gs
        for k, g in enumerate(gs):
            names = smt.decls(g)
            subs = []
            ok = True
            for r, v in hsym.items():
                if isinstance(v, z3.ExprRef) and v.num_args() == 0 and v.decl().name() in names:
                    if r in self.lin:
                        subs.append((r, v, self.lin[r]))
                    else:
                        ok = False
            n0 = self.n
            count = [n0] if n0.decl().name() in names else []
            if not ok or not (subs or count):
                continue

            def b(s, n, pol, g=g, subs=subs, count=count):
                return OR(n == 0, z3.substitute(g, *([(v, ex.addn(self.phival(s, r), self.neg(c))) for r, v, c in subs] + [(k, n - 1) for k in count])))
            C.append(Cand('guard %d' % k, b, text='guard held in the previous iteration'))
        # branch conditions of the only path through the body held in the previous iteration
        if len(res['backs']) == 1:
            bk = res['backs'][0][1]
            lsyms = [(r, v, self.lin[r]) for r, v in hsym.items() if r in self.lin and isinstance(v, z3.ExprRef)]
            k = 0
            for kd, t in bk.path[len(hs.path):]:
                if kd != 'b' or k >= 8 or any(t.eq(g) for g in gs) or smt.has_quant(t):
                    continue
                names = smt.decls(t)
                subs = [x for x in lsyms if x[1].decl().name() in names]
                if not subs:
                    continue
                m = z3.substitute(t, *[(v, I(0)) for r, v, c in subs])
                if newer(m, self.ser):
                    continue
                C.append(Cand('cond %d' % k, lambda s, n, pol, t=t, subs=subs: OR(n == 0, z3.substitute(t, *[(v, ex.addn(self.phival(s, r), self.neg(c))) for r, v, c in subs])),
                              text='branch taken in the previous iteration'))
                k += 1
        # comparisons of induction variables with invariant bounds
        seen = set()
        for _, bk in res['backs']:
            for kd, t in bk.path:
                if kd == 'b':
                    self.atoms(t, hsym, C, seen)
        # frames
        for key, refs in self.regions.items():
            self.framecands(C, key, refs)
        return C

    def slicecands(self, C, nm, get, v0):
        pre = self.pre
        C.append(Cand('fresh %s' % nm, lambda s, n, pol: OR(s_ref(get(s)) == s_ref(v0), s_ref(get(s)) > pre.alloc), text='%s keeps or reallocates its storage' % nm))
        C.append(Cand('len %s' % nm, lambda s, n, pol: s_len(get(s)) == s_len(v0) + n, text='len(%s) grows by one' % nm))
        C.append(Cand('off %s' % nm, lambda s, n, pol: s_off(get(s)) == s_off(v0), text='start of %s unchanged' % nm))
        C.append(Cand('nonnil %s' % nm, lambda s, n, pol: IMP(s_len(get(s)) > 0, s_ref(get(s)) > 0), text=''))

    def atoms(self, t, hsym, C, seen):
        w = [t]
        while w:
            x = w.pop()
            if not z3.is_app(x):
                continue
            if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and x.arg(0).sort() == INT:
                a, b = x.children()
                names = smt.decls(x)
                rs = [r for r, v in hsym.items() if isinstance(v, z3.ExprRef) and v.num_args() == 0 and v.sort() == INT and v.decl().name() in names]
                if len(rs) == 1 and len(seen) < 14 and rs[0] not in self.lin:
                    r, v = rs[0], hsym[rs[0]]
                    d = z3.simplify(a - b)
                    other = None
                    for sg in (1, -1):
                        o = z3.simplify(v - d) if sg == 1 else z3.simplify(v + d)
                        if v.decl().name() not in smt.decls(o) and not newer(o, self.ser):
                            other = o
                    if other is not None and (r, other.get_id()) not in seen:
                        seen.add((r, other.get_id()))
                        ex = self.ex
                        for tag, f in (('<=', lambda p, o: p <= o), ('>=', lambda p, o: p >= o)):
                            for off in (0, 1, -1):
                                C.append(Cand('cmp %s %s %d %d' % (r if not isinstance(r, tuple) else 'cell%s' % (r[1:],), tag, off, len(seen)), lambda s, n, pol, r=r, f=f, o=other, off=off: f(self.phival(s, r), o + off), 300,
                                              text='%s %s bound%+d' % (r, tag, off)))
            elif x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                w.extend(x.children())

    def framecands(self, C, key, refs):
        ex, pre = self.ex, self.pre
        top = ex.top
        if key[0] == 'G' and key[1] == 'pix' or key[0] in 'FEG' or key[0] in ('MD', 'MV'):
            r = z3.Int('r!')
            if refs is None:
                def b(s, n, pol):
                    new, old = ex.reg(s, key), ex.reg(pre, key)
                    return FA([r], IMP(r <= pre.alloc, z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)])
                C.append(Cand('frame %s' % ex.region_name(key), b, text='existing objects of %s unchanged' % ex.region_name(key)))

                def b2(s, n, pol):
                    new, old = ex.reg(s, key), ex.reg(top.entry, key)
                    return FA([r], IMP(AND(r <= top.entry.alloc, NOT(ex.in_mods(top, key, r))), z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)])
                C.append(Cand('topframe %s' % ex.region_name(key), b2, text='%s unchanged outside the modifies clause' % ex.region_name(key)))
            if key[0] == 'E':
                for m in ex.top_mods(top):
                    if m.key == key and m.lo is not None:
                        j = z3.Int('j!')

                        def b3(s, n, pol, m=m):
                            new, old = ex.sel(ex.reg(s, key), m.ref), ex.sel(ex.reg(top.entry, key), m.ref)
                            if new.eq(old):
                                return z3.BoolVal(True)
                            return FA([j], IMP(OR(j < m.lo, j >= m.hi), z3.Select(new, j) == z3.Select(old, j)), patterns=[z3.Select(new, j)])
                        C.append(Cand('rowframe %s' % ex.region_name(key), b3, text='%s unchanged outside the slice' % ex.region_name(key)))

    def summaries(self, hs, res, log):
        """per-iteration writes at an index that moves by one each iteration"""
        ex, pre = self.ex, self.pre
        C = []
        bykey = {}
        for key, ref, idx, term, s, ins in log:
            bykey.setdefault(key, []).append((ref, idx))
        if len(res['backs']) != 1:
            return C
        back = res['backs'][0][1]
        for key, ws in bykey.items():
            if self.regions.get(key) is None:
                continue
            groups = {}
            for ref, idx in ws:
                groups.setdefault(ref.get_id(), (ref, []))[1].append(idx)
            for ref, idxs in groups.values():
                idx = z3.simplify(idxs[0])
                if any(not z3.simplify(i).eq(idx) for i in idxs[1:]):
                    continue
                m = z3.Int('m!')
                syms = [(r, v, self.lin[r]) for r, v in self.sym.items() if r in self.lin and isinstance(self.lin[r], int)]
                subs = [(v, ex.addn(self.phival(pre, r), self.times(c, m))) for r, v, c in syms]
                at = z3.simplify(z3.substitute(idx, *subs)) if subs else idx
                # coefficient of m
                d = z3.simplify(z3.substitute(at, (m, m + 1)) - at)
                if not (z3.is_int_value(d) and d.as_long() in (1, -1)) or newer(z3.substitute(at, (m, I(0))), self.ser):
                    continue
                c = d.as_long()
                a0 = z3.simplify(z3.substitute(at, (m, I(0))))
                backrow = ex.sel(ex.reg(back, key), ref)
                hrow = ex.sel(ex.reg(hs, key), ref)
                val = rowval(backrow, idxs[0])
                if val is None:
                    continue
                # the header's row may be read at the index being written (old value)
                valm = z3.substitute(val, *subs) if subs else val
                j = z3.Int('j!')
                mm = (j - a0) if c == 1 else (a0 - j)
                valj = z3.substitute(valm, (m, mm))
                if newer(valj, self.ser):
                    # memory read by the body: as it was before the loop
                    valj = z3.substitute(valj, *self.prememory(hs))
                if newer(valj, self.ser):
                    continue

                def b(s, n, pol, key=key, ref=ref, mm=mm, valj=valj):
                    row = ex.sel(ex.reg(s, key), ref)
                    return FA([j], IMP(AND(mm >= 0, mm < n), z3.Select(row, j) == valj), patterns=[z3.Select(row, j)])
                C.append(Cand('writes %s' % ex.region_name(key), b, 1500, text='written elements of %s' % ex.region_name(key)))

                def b2(s, n, pol, key=key, ref=ref, mm=mm):
                    row, row0 = ex.sel(ex.reg(s, key), ref), ex.sel(ex.reg(pre, key), ref)
                    return FA([j], IMP(OR(mm < 0, mm >= n), z3.Select(row, j) == z3.Select(row0, j)), patterns=[z3.Select(row, j)])
                C.append(Cand('unwritten %s' % ex.region_name(key), b2, 1500, text='other elements of %s unchanged' % ex.region_name(key)))
        return C

    def prememory(self, hs):
        """header memory symbols -> memory before the loop"""
        ex, out = self.ex, []
        for key, refs in self.regions.items():
            h, p = ex.reg(hs, key), ex.reg(self.pre, key)
            if refs is None:
                if z3.is_const(h):
                    out.append((h, p))
            else:
                while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
                    if z3.is_const(h.arg(2)):
                        out.append((h.arg(2), ex.sel(p, h.arg(1))))
                    h = h.arg(0)
        return out or [(I(0), I(0))]

    def names(self):
        """source-level names visible in contract invariants: name -> list of accessors"""
        ex = self.ex
        out = {}
        for ins in self.phis:
            nm = ins.get('comment')
            if nm:
                out.setdefault(nm, []).append((lambda s, r=ins['r']: s.regs[r], ins['t']))
        for c, (nm, t) in ex.named_cells.items():
            if nm and c in self.pre.cells:
                out.setdefault(nm, []).append((lambda s, c=c: s.cells[c], t))
        for r in self.iters:
            out.setdefault('$pos', []).append((lambda s, r=r: s.regs[r].pos, 'int'))
            out.setdefault('$str', []).append((lambda s, r=r: s.regs[r].coll, 'string'))
        return out

    def bytype(self, t):
        """loop-carried values and live values of a type"""
        ex = self.ex
        T = ex.T
        out = []
        for ins in self.phis:
            if T.norm(ins['t']) == t and ins['r'] in self.sym:
                out.append((ins.get('comment') or '', lambda s, r=ins['r']: s.regs[r]))
        for r in self.iters:
            if t == 'int':
                out.append(('$pos', lambda s, r=r: s.regs[r].pos))
        for c, (nm, ct) in ex.named_cells.items():
            if c in self.pre.cells and T.norm(ct) == t:
                out.append((nm, lambda s, c=c: s.cells[c]))
        live = self.fr.fn.livein[self.h]
        for b in self.fr.fn.blocks:
            for ins in b['i']:
                r = ins.get('r')
                if r in live and r in self.pre.regs and ins['op'] != 'Phi' and ins.get('t') and T.norm(ins['t']) == t:
                    out.append((ins.get('comment') or '', lambda s, r=r: s.regs[r]))
                elif r in live and r in self.pre.regs and ins['op'] == 'Phi' and b['i'] is not self.fr.fn.blocks[self.h]['i'] and T.norm(ins['t']) == t:
                    out.append((ins.get('comment') or '', lambda s, r=r: s.regs[r]))
        for n, pt in self.fr.fn.params:
            if T.norm(pt) == t and n in self.pre.regs:
                out.append((n, lambda s, r=n: s.regs[r]))
        return out

    def combos(self, cl):
        """the live values the variables of a clause may stand for"""
        ex = self.ex
        if not cl.vars:
            return [{}]
        opts = []
        for v, t in cl.vars:
            t = ex.T.norm(t) if t in ex.T.tab else t
            o = self.bytype(t)
            hit = [x for x in o if x[0] == v]
            o = hit if hit else o
            opts.append([(v, g, t) for _, g in o])
        return [{v: (g, t) for v, g, t in co} for co in itertools.islice(itertools.product(*opts), 16)]

    def shifted(self, cands):
        """invariants about the number of iterations, for loops that start at the second element"""
        kept = {c.name.split('.')[0] for c in cands if c.name.startswith('inv ')}
        if self.ex.loopdepth != 1 or self.ex.top is None:
            return []
        only = {k for k, cl in enumerate(self.ex.top.contract.invariants) if '$n' in cl.text and 'inv %d' % k not in kept}
        return self.templates(1, only) if only else []

    def templates(self, shift=0, only=None):
        from .spec import Eval, SpecError
        ex, top = self.ex, self.ex.top
        C = []
        if top is None:
            return C
        names = self.names()
        for k, cl in enumerate(top.contract.invariants):
            if cl.outer and ex.loopdepth > 1 or only is not None and k not in only:
                continue
            for ci, co in enumerate(self.combos(cl)):
                def mk(s, n, pol, cl=cl, co=co):
                    env = dict(top.env)
                    for nm, gs in names.items():
                        if nm not in env or True:
                            g, t = gs[-1]
                            if nm not in env:
                                env[nm] = (g(s), t)
                    for v, (g, t) in co.items():
                        env[v] = (g(s), t)
                    ev = Eval(ex, s, top.entry, env, top.contract, n=n + shift if shift else n, entry=self.pre)
                    return ev.evb(cl.expr, pol)
                try:
                    mk(self.pre, I(0), False)
                except (SpecError, Unsupported, KeyError, AttributeError, z3.Z3Exception, IndexError, TypeError) as e:
                    if ex.debug:
                        ex.log('  template %s not applicable: %s' % (cl.text[:50], e))
                    continue
                C.append(Cand('inv %d.%d%s' % (k, ci, '+%d' % shift if shift else ''), mk, 3000, text=cl.text, props=cl.props))
        return C

    # ------------------------------------------------ the fixpoint

    def holds(self, s, c, n):
        from .spec import SpecError
        try:
            g = c.build(s, n, False)
        except (SpecError, Unsupported, z3.Z3Exception, KeyError, AttributeError, TypeError) as e:
            return False
        if z3.is_true(z3.simplify(g)) if not smt.has_quant(g) else False:
            return True
        return self.ex.prover.check(s.facts(), g, c.ms, full=c.name.startswith('inv')) == 'proved'

    def assume(self, s, cands):
        for c in cands:
            f = c.build(s, self.n, True)
            s.assume(f)

    def houdini(self, cands, debug=False):
        ex = self.ex
        failed = ex.loopfail.setdefault(self.key, set())
        cands = [c for c in cands if c.name not in failed]
        keep = []
        for c in cands:
            if self.holds(self.pre, c, I(0)):
                keep.append(c)
            else:
                if ex.debug:
                    ex.log('  %s b%d: not on entry: %s %s' % (self.fr.fn.name[-20:], self.h, c.name, c.text[:70]))
        cands = keep
        last = None
        for rnd in range(12):
            s = self.header()
            self.assume(s, cands)
            hs = s.copy()
            ex.quiet += 1
            log, ex.writelog = ex.writelog, []
            try:
                res = self.runbody(s)
            finally:
                ex.quiet -= 1
                mylog, ex.writelog = ex.writelog, log
                if log is not None:
                    log += mylog
            if self.unsolved(res):
                continue
            drop = set()
            for c in cands:
                for _, b in res['backs']:
                    if not self.holds(b, c, self.n + 1):
                        drop.add(c.name)
                        failed.add(c.name)
                        if ex.debug:
                            ex.log('  %s b%d: not preserved: %s %s' % (self.fr.fn.name[-20:], self.h, c.name, c.text[:70]))
                        break
            if not drop:
                return cands, hs, res, mylog
            cands = [c for c in cands if c.name not in drop]
        self.solved = {}
        return [], hs, res, mylog

    def run(self):
        self.ex.loopdepth += 1
        try:
            return self.run1()
        finally:
            self.ex.loopdepth -= 1

    def run1(self):
        ex = self.ex
        hs, res = self.discover()
        if ex.dry:
            # effect discovery of an enclosing loop: over-approximate, no invariants
            s = self.header()
            r = self.runbody(s)
            return {'exits': r['exits'], 'rets': r['rets']}
        t0 = time.time()
        self.solve(hs, res)
        while self.solved:
            ex.quiet += 1
            dry, ex.dry = ex.dry, True
            try:
                s = self.header()
                hs = s.copy()
                res = self.runbody(s)
            finally:
                ex.quiet -= 1
                ex.dry = dry
            if not self.unsolved(res):
                break
        cands = self.auto(hs, res)
        cands, hs, res, log = self.houdini(cands)
        extra = self.summaries(hs, res, log) + self.templates()
        if extra:
            cands, hs, res, log = self.houdini(cands + extra)
            more = self.shifted(cands)
            if more:
                cands, hs, res, log = self.houdini(cands + more)
        # final pass, obligations recorded
        s = self.header()
        self.assume(s, cands)
        hdr = s.copy()
        res = self.runbody(s)
        if not ex.quiet:
            self.record(cands, hdr, res)
        if ex.debug and not ex.quiet:
            ex.log('  loop %s b%d: %.1fs, %d invariants: %s' % (self.fr.fn.name[-24:], self.h, time.time() - t0, len(cands), [c.name for c in cands]))
        return {'exits': res['exits'], 'rets': res['rets']}

    def record(self, cands, hdr, res):
        from .exec import Obligation
        ex = self.ex
        top = ex.top
        pos = self.fr.fn.name.split('/')[-1]
        for c in cands:
            for w in ('entry', 'preserved'):
                ob = Obligation(top.fn.name, 'invariant-' + w, 'loop invariant: %s [%s]' % (c.text or c.name, pos), frozenset(top.contract.allprops), [], z3.BoolVal(True), '')
                ob.status, ob.solver = 'proved', 'z3'
                ex.obs.append(ob)
        self.terminate(hdr, res, pos)

    def measures(self, hdr):
        from .spec import Eval, SpecError
        ex, top = self.ex, self.ex.top
        out = []
        names = self.names()
        for cl in top.contract.decreases:
          for co in self.combos(cl):
            env = dict(top.env)

            def m(s, cl=cl, co=co):
                e2 = dict(env)
                for nm, gs in names.items():
                    if nm not in e2 or nm in [i.get('comment') for i in self.phis]:
                        g, t = gs[-1]
                        e2[nm] = (g(s), t)
                for v, (g, t) in co.items():
                    e2[v] = (g(s), t)
                return Eval(ex, s, top.entry, e2, top.contract, n=self.n, entry=self.pre).ev(cl.expr)[0]
            out.append((cl.text, m))
        for r in self.iters:
            out.append(('rest of the string', lambda s, r=r: str_len(s.regs[r].coll) - s.regs[r].pos))
        syms = {r: v for r, v in self.sym.items() if isinstance(v, z3.ExprRef)}
        for g in self.guards:
            w = [g]
            while w:
                x = w.pop()
                if not z3.is_app(x):
                    continue
                if z3.is_not(x) or z3.is_and(x) or z3.is_or(x):
                    w.extend(x.children())
                elif x.num_args() == 2 and x.arg(0).sort() == INT and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    a, b = x.children()
                    for d in (b - a, a - b):
                        out.append(('loop bound', lambda s, d=d, n=self.n: z3.substitute(d, *([(v, self.phival(s, r)) for r, v in self.gsyms.items() if z3.is_const(v)]
                                                                                            + [(n, n if s is hdr else n + 1)]))))
        # magnitude of a variable that is neither
        for r, nm, t, v0 in self.lvars():
            if r not in self.lin and ex.kind(t) == 'int':
                out.append(('|%s|' % nm, lambda s, r=r: ite(z3.simplify(self.phival(s, r) >= 0), self.phival(s, r), -self.phival(s, r))))
        # distance of a linear variable to its bound in other exit conditions
        for r, c in self.lin.items():
            for _, b in self.lastres['backs']:
                for kd, t in b.path:
                    if kd != 'b' or not z3.is_app(t) or t.num_args() != 2 or t.arg(0).sort() != INT:
                        continue
                    if self.sym[r].decl().name() in smt.decls(t):
                        for d in (t.arg(1) - t.arg(0), t.arg(0) - t.arg(1)):
                            out.append(('bound of an exit', lambda s, d=d: z3.substitute(d, *[(v, self.phival(s, q)) for q, v in self.sym.items() if isinstance(v, z3.ExprRef)])))
        return out

    def terminate(self, hdr, res, pos):
        from .exec import Obligation
        from .spec import SpecError
        ex, top = self.ex, self.ex.top
        if not res['backs']:
            return
        # guards in terms of this header's symbols
        self.guards = self.guard(hdr)
        self.gsyms = {r: v for r, v in self.sym.items() if isinstance(v, z3.ExprRef)}
        self.lastres = res
        best = None
        for text, m in self.measures(hdr):
            try:
                goals = []
                for _, b in res['backs']:
                    goals.append((b, AND(m(hdr) >= 0, m(b) < m(hdr))))
            except (SpecError, Unsupported, KeyError, z3.Z3Exception, AttributeError) as e:
                if ex.debug:
                    ex.log('  measure %s: %s' % (text, e))
                continue
            ok = all(ex.prover.check(b.facts(), g, 1500) == 'proved' for b, g in goals)
            if ok:
                ob = Obligation(top.fn.name, 'termination', 'loop terminates (%s) [%s]' % (text.strip(), pos), frozenset(top.contract.safeprops), [], z3.BoolVal(True), '')
                ob.status, ob.solver = 'proved', 'z3'
                ex.obs.append(ob)
                return
            if best is None:
                best = (text, goals)
        b, g = best[1][0] if best else (res['backs'][0][1], z3.BoolVal(False))
        ex.obs.append(Obligation(top.fn.name, 'termination', 'loop terminates [%s]' % pos, frozenset(top.contract.safeprops), list(b.facts()), g, ''))


def has_fn(v):
    if isinstance(v, (FnSym, FnRef, Closure)):
        return True
    if isinstance(v, (VStruct, VArr)):
        return any(has_fn(x) for x in v.vals)
    return False


def rowval(row, idx):
    """element at idx of a row built by stores and conditionals"""
    if z3.is_app(row):
        k = row.decl().kind()
        if k == z3.Z3_OP_STORE:
            if row.arg(1).eq(idx):
                return row.arg(2)
            d = z3.simplify(row.arg(1) - idx)
            if z3.is_int_value(d) and d.as_long() != 0:
                return rowval(row.arg(0), idx)
            return None
        if k == z3.Z3_OP_ITE:
            a, b = rowval(row.arg(1), idx), rowval(row.arg(2), idx)
            return None if a is None or b is None else ite(row.arg(0), a, b)
    return z3.Select(row, idx)
