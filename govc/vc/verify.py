"""Verification of one function against its contract."""
import time
import traceback
import z3
from . import smt, ext
from .smt import INT, I, fresh
from .state import *
from .ir import Program, Unsupported
from .exec import Executor, Obligation, Top, AND, NOT, IMP, FA
from .loops import written
from .spec import Specs, Eval, SpecError, Contract

MODES = {'uf': smt.FloatUF, 'real': smt.FloatReal, 'fp': smt.FloatFP}


debug_dead = None


class Session:
    """program + specifications + the effect of the package initialisers, per float model"""

    def __init__(self, prog, specs, mode, log=None, skip_init=()):
        self.mode = mode
        self.ex = Executor(prog, specs, MODES[mode](), log)
        self.run_init(prog, skip_init)

    def run_init(self, prog, skip):
        ex = self.ex
        ex.in_init = True
        st = State()
        st.alloc = I(ext.RESERVED)
        ex.initnotes = []
        order = [p for p in prog.local if p not in skip]
        order.sort(key=lambda p: (p.count('/'), p))
        for p in order:
            fn = prog.fns.get(p + '.init')
            if fn is None or fn.external:
                continue
            # the generated init guard: take the branch that initialises
            ex.globals_val[p + '.init$guard'] = z3.BoolVal(False)
            rets = ex.run_fn(st, fn, [], None, 0)
            if len(rets) != 1:
                raise Unsupported('package initialiser with several outcomes')
            st = rets[0][0]
        ex.in_init = False
        ex.initcells = dict(st.cells)
        ex.K = z3.simplify(st.alloc).as_long()
        ex.initheap = dict(st.heap)
        # facts about objects created by the initialisers
        self.initfacts = []
        for key, v in st.heap.items():
            acc = {}
            t = v
            while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                k = z3.simplify(t.arg(1))
                if z3.is_int_value(k) and k.as_long() not in acc:
                    acc[k.as_long()] = t.arg(2)
                t = t.arg(0)
            ex.initrefs[key] = acc

    def entry(self):
        ex = self.ex
        st = State()
        st.alloc = z3.Int('alloc0')
        st.assume(st.alloc >= ex.K)
        st.assume(st.alloc < (1 << 60))
        st.cells = dict(ex.initcells)
        for key, acc in ex.initrefs.items():
            if key[0] in ('MD', 'MV'):
                continue
            for r, v in acc.items():
                st.assume(z3.Select(ex.h0(key), I(r)) == v)
        return st


class Result:
    def __init__(self, fn, ct):
        self.fn, self.ct = fn, ct
        self.obs = []
        self.notes = []
        self.error = None
        self.time = 0
        self.used_contracts, self.used_ext, self.inlined = set(), set(), set()
        self.returns = 0


def fail(name, kind, text, props, detail=''):
    o = Obligation(name, kind, text, frozenset(props), [], z3.BoolVal(False), '')
    o.status, o.detail = 'unknown', detail
    return o


def verify(sess, ct, props=None, ms=4000, portfolio=True, debug=False, log=print, maxfail=None, until=None, confirm=False):
    """executes the function, generates and discharges its obligations"""
    ex = sess.ex
    prog = ex.prog
    t0 = time.time()
    res = Result(ct.name, ct)
    ex.obs, ex.notes, ex.bnd = [], [], ex.bnd
    ex.used_contracts, ex.used_ext, ex.inlined = set(), set(), set()
    ex.loopdepth = 0
    ex.quiet, ex.callstack, ex.loopfail, ex._tm = 0, [], {}, None
    ex.debug, ex.log = debug, log
    ex.writelog = None
    try:
        if ct.lemma:
            lemma(sess, ct)
        else:
            function(sess, ct, res)
    except (Unsupported, SpecError, Unmergeable) as e:
        res.error = '%s: %s' % (type(e).__name__, e)
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
        res.error = 'internal %s: %s' % (type(e).__name__, e)
        res.trace = traceback.format_exc()
    if res.error and debug:
        log(res.error)
        if hasattr(res, 'trace'):
            log(res.trace)
    obs = ex.obs
    if res.error:
        obs = [o for o in obs if False] + [fail(ct.name, 'unsupported', 'function cannot be verified: ' + res.error, ct.reach, res.error)]
    want = [o for o in obs if props is None or o.props & props]
    texec = time.time() - t0
    failed = 0
    for o in want:
        if o.status is None:
            if (maxfail and failed >= maxfail) or (until and time.time() > until):
                o.status, o.solver, o.detail = 'skipped', 'none', 'not attempted: ' + ('earlier obligations of the function failed' if failed else 'time budget used up')
                continue
            ex.prover.discharge(o, max(ct.timeout or 0, ms), portfolio)
            if confirm and o.status == 'proved':
                o.solver += ex.prover.confirm(o, ms)
            failed += o.status != 'proved'
            if debug and o.status != 'proved':
                log('  FAIL %s %s: %s (%s) %s' % (o.kind, o.name, o.status, o.pos, o.detail[:600]))
    res.obs = want
    res.notes = list(dict.fromkeys(ex.notes))
    res.used_contracts, res.used_ext, res.inlined = ex.used_contracts, ex.used_ext, ex.inlined
    res.time = time.time() - t0
    if debug:
        log('%s: %d obligations, %d failed, exec %.1fs total %.1fs' % (ct.short, len(want), len([o for o in want if o.status != 'proved']), texec, res.time))
    return res


def lemma(sess, ct):
    ex = sess.ex
    st = sess.entry()
    env = {}
    for n, t in ct.params:
        if t in ('row', 'stream', 'color', 'real'):
            from .spec import specsort
            env[n] = (fresh(n, specsort(ex, t)), t)
        elif t in ('finite', 'finite32'):
            # a float that is a number
            env[n] = (ex.fm.mk(I(0), fresh(n, smt.REAL)), 'float64' if t == 'finite' else 'float32')
        else:
            env[n] = (ex.symval(st, t, n), t)
    class FN:
        name = ct.name
    ex.top = Top(FN, ct, st, env)
    ev = Eval(ex, st, st, env, ct)
    for r in ct.requires:
        st.assume(ev.evb(r.expr, True))
    for r in ex.specs.globals:
        st.assume(ev.evb(r.expr, True))
    ex.top.entry = entry = st.copy()
    vacuity(ex, st, ct, 'hypotheses of the lemma are satisfiable')
    # the calls of the real code, in order
    sts = [(st, env)]
    for names, fname, args, text in ct.runs:
        if fname in ex.prog.globals:     # a function value held by a package-level variable
            sts = [o for s, e in sts for o in callglobal(ex, s, e, entry, ct, names, fname, args)]
            continue
        fn = ex.prog.fns.get(fname)
        if fn is None or fn.external or len(fn.params) != len(args) or len(fn.results) != len([n for n in names if n]):
            raise Unsupported('lemma calls %s, which is not a function of the program with these parameters' % fname)
        nxt = []
        for s, e in sts:
            v = [Eval(ex, s, entry, e, ct).value(a, ex.T.norm(pt)) for a, (_, pt) in zip(args, fn.params)]
            for s2, r in ex.apply(Frame0(ex), s, FnRef(fname), v, {'args': [], 'sig': fn.d['sig']}, {'pos': 'lemma ' + ct.name}):
                e2 = dict(e)
                rs = r.vals if len(fn.results) > 1 else [r] if fn.results else []
                for n, (_, t), x in zip(names, fn.results, rs):
                    e2[n] = (x, ex.T.norm(t))
                nxt.append((s2, e2))
        sts = nxt
    live = 0
    for s, e in sts:
        if ct.runs and ex.prover.check(s.facts(), z3.BoolVal(False), 300) == 'proved':
            continue
        live += 1
        ev = Eval(ex, s, entry, e, ct)
        for c in ct.hints:
            ex.ob(s, ev.evb(c.expr, False), 'hint', c.name or c.text[:90], props=c.props or ct.allprops)
        for c in ct.ensures:
            ex.ob(s, ev.evb(c.expr, False), 'lemma', c.name or c.text.strip()[:90], props=c.props or ct.allprops, assume=not ct.runs)
    if not live:
        ex.obs.append(fail(ct.name, 'vacuity', 'some outcome of the calls is reachable', ct.allprops, 'no feasible outcome'))


def callglobal(ex, s, e, entry, ct, names, g, args):
    t = ex.elem(ex.prog.globals[g])
    sig = ex.T.u(t)
    if sig.get('k') != 'sig' and 'params' not in sig or len(sig['params']) != len(args) or len(sig['results']) != len([n for n in names if n]):
        raise Unsupported('lemma calls %s, which is not a function value with these parameters' % g)
    v = [Eval(ex, s, entry, e, ct).value(a, ex.T.norm(pt)) for a, pt in zip(args, sig['params'])]
    out = []
    for s2, r in ex.apply(Frame0(ex), s, ex.globget(s, PGlob(g), t), v, {'args': [], 'sig': ex.T.ukey(t)}, {'pos': 'lemma ' + ct.name}):
        e2 = dict(e)
        for n, rt, x in zip(names, sig['results'], r.vals if len(sig['results']) > 1 else [r]):
            e2[n] = (x, ex.T.norm(rt))
        out.append((s2, e2))
    return out


def vacuity(ex, st, ct, text):
    r = ex.prover.check(st.facts(), z3.BoolVal(False), 400)
    o = Obligation(ct.name, 'vacuity', text, ct.allprops, [], z3.BoolVal(True), '')
    o.status, o.solver = ('proved' if r != 'proved' else 'vacuous'), 'z3'
    ex.obs.append(o)
    return r != 'proved'


def function(sess, ct, res):
    ex = sess.ex
    fn = ex.prog.fns[ct.name]
    st = sess.entry()
    env, args = {}, []
    for (n, t), (pn, pt) in zip(ct.params, fn.params):
        v = ex.symval(st, ex.T.norm(pt), n)
        args.append(v)
        env[n] = (v, ex.T.norm(pt))
    for v, (n, t) in zip(args, fn.params):
        if ex.T.norm(t) == '*bufio.Reader':
            ext.rpos(ex, st, v)      # a reader is never past the end of its stream
    entry = st.copy()
    ex.top = Top(fn, ct, entry, env)
    ev = Eval(ex, entry, entry, env, ct)
    for r in ct.requires:
        st.assume(ev.evb(r.expr, True))
    for r in ex.specs.globals:
        st.assume(ev.evb(r.expr, True))
    ex.top.entry = entry = st.copy()
    vacuity(ex, st, ct, 'precondition is satisfiable')
    rets = ex.run_fn(st, fn, args, ex.top, 0)
    res.returns = len(rets)
    live = 0
    for s, vals in rets:
        if debug_dead: debug_dead(ex, s)
        if ex.prover.check(s.facts(), z3.BoolVal(False), 300) == 'proved':
            if debug_dead:
                debug_dead(ex, s)
            continue
        live += 1
        e2 = dict(env)
        for (n, _), (_, t), v in zip(ct.results, fn.results, vals):
            e2[n] = (v, ex.T.norm(t))
        ev = Eval(ex, s, entry, e2, ct)
        for c in ct.assumed:
            s.assume(ev.evb(c.expr, True))
        for c in ct.hints:
            s.assume(ev.evb(c.expr, True)) if False else ex.ob(s, ev.evb(c.expr, False), 'hint', c.name or c.text[:90], props=c.props or ct.allprops)
        for c in ct.ensures:
            if c.defines:
                v, t = e2[c.defines]
                d = ev.value(c.expr, t)
                g = ev.same(v, d, t)
            else:
                g = ev.evb(c.expr, False)
            ante(ex, s, g, 'ensures', c.name or c.text.strip()[:90], c.props or ct.allprops)
        frames(ex, ct, s, entry)
        if ct.closure:
            closures(ex, ct, s, e2, vals, entry)
    if not live and fn.results is not None and not ct.noreturn:
        ex.obs.append(fail(ct.name, 'vacuity', 'some return is reachable', ct.allprops, 'no feasible return'))
    return


def ante(ex, s, g, kind, name, props):
    """an obligation; implications whose hypothesis contradicts the state are settled once per state"""
    n = len(ex.obs)
    ex.ob(s, g, kind, name, props=props, assume=False)
    if len(ex.obs) == n:   # the goal simplified to true
        o = Obligation(ex.top.fn.name, kind, name, frozenset(props), [], z3.BoolVal(True), '')
        o.status, o.solver = 'proved', 'simplifier'
        ex.obs.append(o)
    if len(ex.obs) > n and z3.is_implies(g) and ex.prover.check(s.facts(), NOT(g.arg(0)), 300) == 'proved':
        ex.obs[-1].status, ex.obs[-1].solver = 'proved', 'z3'


def frames(ex, ct, s, entry):
    top = ex.top
    mods = ex.top_mods(top)
    r = z3.Int('r!')
    for key in list(s.heap):
        new, old = s.heap[key], ex.reg(entry, key)
        if new.eq(old):
            continue
        p = ct.framing(key, ex.region_name(key))
        acc = []
        if written(new, old, acc) and all(any(m.key == key and m.lo is None and m.ref is not None and m.ref.eq(a) for m in mods) for a in acc):
            o = Obligation(ct.name, 'frame', '%s unchanged outside the modifies clause' % ex.region_name(key), frozenset(p), [], z3.BoolVal(True), '')
            o.status, o.solver = 'proved', 'syntactic'
            ex.obs.append(o)
            continue
        keep = AND(r <= entry.alloc, NOT(ex.in_mods(top, key, r)))
        if key[0] == 'G' and key[1] == 'ver':
            pass
        g = FA([r], IMP(keep, z3.Select(new, r) == z3.Select(old, r)))
        ex.ob(s, g, 'frame', '%s unchanged outside the modifies clause' % ex.region_name(key), props=p, assume=False)
        for m in mods:
            if m.key == key and m.lo is not None:
                j = z3.Int('j!')
                g = FA([j], IMP(z3.Or(j < m.lo, j >= m.hi), z3.Select(ex.sel(new, m.ref), j) == z3.Select(ex.sel(old, m.ref), j)))
                ex.ob(s, g, 'frame', '%s unchanged outside the slice' % ex.region_name(key), props=p, assume=False)


def closures(ex, ct, s, env, vals, entry):
    """the returned function value: executed on an arbitrary argument"""
    f = vals[0]
    t = ex.T.norm(ex.top.fn.results[0][1])
    sig = ex.T.u(t)
    st = s.copy()
    cells = dict(st.cells)
    heap = dict(st.heap)
    args = [ex.symval(st, ex.T.norm(pt), 'arg%d' % k) for k, pt in enumerate(sig['params'])]
    vs = [c.vars for c in ct.closure if c.vars][0]
    e2 = dict(env)
    for (n, _), a, pt in zip(vs, args, sig['params']):
        e2[n] = (a, ex.T.norm(pt))
    pre = st.copy()
    rs = ex.apply(ex.curframe or Frame0(ex), st, f, list(args), {'args': [], 'sig': ex.T.ukey(t)}, {})
    if not rs:
        ex.obs.append(fail(ct.name, 'closure', 'result function returns', ct.allprops))
    for s2, v in rs:
        e3 = dict(e2)
        e3['out'] = (v, ex.T.norm(sig['results'][0]))
        ev = Eval(ex, s2, entry, e3, ct)
        for c in ct.closure:
            ex.ob(s2, ev.evb(c.expr, False), 'closure', c.name or c.text.strip()[:90], props=c.props or ct.allprops, assume=False)
        for c, v0 in cells.items():
            if not same(s2.cells.get(c), v0):
                ex.obs.append(fail(ct.name, 'frame', 'result function keeps no state between calls', ct.frameprops, 'captured variable written'))
        for key in s2.heap:
            if key not in heap or not heap[key].eq(s2.heap[key]):
                r = z3.Int('r!')
                new, old = s2.heap[key], ex.reg(pre, key)
                ex.ob(s2, FA([r], IMP(r <= pre.alloc, z3.Select(new, r) == z3.Select(old, r))), 'frame', 'result function modifies nothing', props=ct.frameprops, assume=False)


class Frame0:
    def __init__(self, ex):
        self.depth, self.top = 0, ex.top
