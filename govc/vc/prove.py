"""Discharging proof obligations with SMT solvers."""
import os
import subprocess
import tempfile
import time
import z3
from fractions import Fraction
from . import smt, field
from .smt import INT, REAL, I

z3.set_param('auto_config', False)

stats = {'z3': [0, 0.0], 'cvc5': [0, 0.0], 'syntactic': [0, 0.0]}


def strip(goal, facts=None):
    """splits a goal into [(extra facts, atomic goal)], skolemising outer universal quantifiers"""
    facts = facts or []
    if z3.is_true(goal):
        return []
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += strip(c, facts)
        return out
    if z3.is_implies(goal):
        return strip(goal.arg(1), facts + flat(goal.arg(0)))
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [smt.fresh('sk_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        return strip(z3.substitute_vars(goal.body(), *reversed(vs)), facts)
    if z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
        q = goal.arg(0)
        vs = [smt.fresh('sk_' + q.var_name(i), q.var_sort(i)) for i in range(q.num_vars())]
        return strip(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))), facts)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and has_strippable(goal):
        c, a, b = goal.children()
        return strip(a, facts + [c]) + strip(b, facts + [z3.Not(c)])
    if z3.is_or(goal) and has_strippable(goal):
        cs = goal.children()
        q = [c for c in cs if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c)]
        if q:
            rest = [z3.Not(c) for c in cs if not c.eq(q[0])]
            return strip(q[0], facts + rest)
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.BoolSort() and has_strippable(goal):
        a, b = goal.children()
        return strip(z3.Implies(a, b), facts) + strip(z3.Implies(b, a), facts)
    return [(facts, goal)]


def has_strippable(t):
    return smt.has_quant(t) or any(z3.is_and(c) for c in t.children())


def flat(f):
    if z3.is_and(f):
        return [x for c in f.children() for x in flat(c)]
    if z3.is_quantifier(f) and f.is_exists():
        vs = [smt.fresh('ex_' + f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
        return flat(z3.substitute_vars(f.body(), *reversed(vs)))
    if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_forall():
        q = f.arg(0)
        vs = [smt.fresh('ex_' + q.var_name(i), q.var_sort(i)) for i in range(q.num_vars())]
        return flat(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))))
    return [f]


def instances(facts, goal):
    """instances of the universally quantified facts at the skolem constants of the goal: a goal that
    is part of a conjunction may not mention the terms that trigger the hypothesis"""
    sks, seen, w = [], set(), [goal] + facts[-6:]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == INT and x.decl().name().startswith('sk_'):
                sks.append(x)
            w.extend(x.children())
    if not sks or len(sks) > 4:
        return []
    out = []
    for f in reversed(facts):
        if not smt.has_quant(f):
            continue
        for sk in sks:
            for k in range(3):
                hit = [0, False]
                g = instance(f, sk, k, hit)
                if hit[0]:
                    out.append(g)
                if not hit[1]:
                    break
        if len(out) > 60:
            break
    return out


def instance(f, sk, k, hit):
    """f with its positive universal quantifiers over one integer replaced by the body at sk (k = 0) or at sk
    shifted by the k-th offset the bound variable occurs with: a consequence of f"""
    if not smt.has_quant(f):
        return f
    if z3.is_quantifier(f):
        if not (f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == INT) or f.var_name(0) == 'r!':
            return f
        offs = offsets(f.body())
        if k < len(offs):
            hit[1] = True
        if k > len(offs):
            return f
        hit[0] += 1
        return z3.substitute_vars(f.body(), sk if k == 0 else sk + offs[k - 1])
    if z3.is_and(f):
        return z3.And(*[instance(c, sk, k, hit) for c in f.children()])
    if z3.is_or(f):
        return z3.Or(*[instance(c, sk, k, hit) for c in f.children()])
    if z3.is_implies(f):
        return z3.Implies(f.arg(0), instance(f.arg(1), sk, k, hit))
    return f


def offsets(body):
    offs, st, vis = {}, [body], set()
    while st:
        x = st.pop()
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        if z3.is_app(x):
            cs = x.children()
            if z3.is_add(x) or z3.is_sub(x):
                v = [c for c in cs if z3.is_var(c)]
                r = [c for c in cs if not z3.is_var(c)]
                if len(v) == 1 and r and not any(smt.has_var(c) for c in r):
                    o = z3.simplify(-z3.Sum(r)) if z3.is_add(x) else (z3.simplify(z3.Sum(r)) if z3.is_var(cs[0]) else None)
                    if o is not None and not z3.is_int_value(o):
                        offs[o.get_id()] = o
            st.extend(cs)
    return list(offs.values())[:2]


class Ground:
    """ground subterms of a set of formulas, by function symbol"""

    def __init__(self):
        self.seen = {}
        self.apps = {}
        self.partial = {}       # applications with bound variables, of symbols of interest
        self.muls = []
        self.names = set()
        self.sels = []

    def add(self, t, interest=()):
        """returns new ground applications found"""
        if t.get_id() in self.seen and self.seen[t.get_id()].eq(t):
            return
        st = [(t, False)]
        while st:
            x, post = st.pop()
            i = x.get_id()
            if i in self.seen and not post:
                continue
            if z3.is_quantifier(x):
                self.seen[i] = x
                st.append((x.body(), False))
                continue
            if not z3.is_app(x):
                self.seen[i] = x
                continue
            self.seen[i] = x
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                self.names.add(n)
                if x.num_args():
                    if not smt.has_var(x):
                        self.apps.setdefault(n, []).append(x)
                    elif n in interest:
                        self.partial.setdefault(n, []).append(x)
            elif k == z3.Z3_OP_EQ and x.arg(0).sort() == smt.STR and not smt.has_var(x):
                self.apps.setdefault('=str', []).append(x)
            elif k == z3.Z3_OP_MUL and not smt.has_var(x) and x.sort() == INT:
                fs = [a for a in x.children() if not z3.is_int_value(a)]
                if len(fs) >= 2:
                    self.muls.append(x)
            for c in x.children():
                if not (c.get_id() in self.seen):
                    st.append((c, False))


class Prover:
    def __init__(self, ex):
        self.ex = ex
        self.cache = {}
        self.keep = []
        self.base = smt.base_axioms()
        self.nq = 0
        self.tq = 0.0

    def interest(self):
        s = set(self.ex.specs.recs) if self.ex.specs else set()
        return s

    def closure(self, forms, order=True):
        """axioms needed for a set of formulas"""
        ex = self.ex
        g = Ground()
        interest = self.interest()
        for f in forms:
            g.add(f, interest)
        out = []
        used = set()
        regs = set()
        recdone = set()
        depth = {}
        divdone = set()
        for rnd in range(6):
            new = []
            for k, (syms, ax) in enumerate(self.base):
                if k not in used and syms & g.names:
                    used.add(k)
                    new.append(ax)
            for n in list(g.names):
                if n in ex.region_axioms and n not in regs:
                    regs.add(n)
                    new += ex.region_axioms[n]
            if rnd == 0 or True:
                new += self.unfold(g, recdone, depth)
                for n in ('idiv', 'imod'):
                    for t in g.apps.get(n, []):
                        key = (t.arg(0).get_id(), t.arg(1).get_id())
                        if key not in divdone:
                            divdone.add(key)
                            new.append(divfacts(t.arg(0), t.arg(1)))
                new += ex.ext.ground_axioms(ex, g, recdone)
            if not new:
                break
            out += new
            for f in new:
                g.add(f, interest)
        out += self.products(g)
        out += smt.lit_axioms(g.names)
        out += ex.fm.axioms(g.names)
        if hasattr(ex.fm, 'ground_facts'):
            out += ex.fm.ground_facts(forms + out, order)
        return out

    def unfold(self, g, done, depth):
        """definitions of recursive specification functions at the ground applications"""
        ex = self.ex
        out = []
        if not ex.specs:
            return out
        show = ex.top.contract.reveal if ex.top is not None else ()
        for name, rf in ex.specs.recs.items():
            if rf.opaque and name not in show:
                continue
            for t in g.apps.get(name, []) + g.partial.get(name, []):
                args = [t.arg(i) for i in rf.ground]
                if any(smt.has_var(a) for a in args):
                    continue
                key = (name,) + tuple(a.get_id() for a in args)
                if key in done:
                    continue
                d = depth.get(key, 0)
                if d > rf.maxdepth:
                    continue
                done.add(key)
                self.keep.append(t)
                eq = rf.equation(ex, t)
                out.append(eq)
                # applications introduced by this equation are one level deeper
                for u in recapps(eq, ex.specs.recs):
                    r2 = ex.specs.recs[u.decl().name()]
                    a2 = [u.arg(i) for i in r2.ground]
                    if not any(smt.has_var(a) for a in a2):
                        self.keep.append(u)
                        depth.setdefault((u.decl().name(),) + tuple(a.get_id() for a in a2), d + 1)
        return out

    def products(self, g):
        """monotonicity of multiplication for the products that occur"""
        out = []
        ms = g.muls[:14]
        fac = []
        for m in ms:
            fs = [a for a in m.children() if not z3.is_int_value(a)]
            fac.append(fs)
            for i in range(len(fs)):
                rest = fs[:i] + fs[i + 1:]
                b = rest[0] if len(rest) == 1 else z3.Product(rest)
                a = fs[i]
                if i == 0:
                    p = z3.Product(fs)
                    out.append(z3.Implies(z3.And(a >= 0, b >= 0), p >= 0))
                    out.append(z3.Implies(z3.And(a >= 1, b >= 0), p >= b))
                    out.append(z3.Implies(z3.And(b >= 1, a >= 0), p >= a))
        for i in range(len(ms)):
            for j in range(len(ms)):
                if i == j:
                    continue
                for a in fac[i]:
                    for c in fac[j]:
                        if a.eq(c) and len(fac[i]) == 2 and len(fac[j]) == 2:
                            b = [x for x in fac[i] if not x.eq(a)] or [a]
                            d = [x for x in fac[j] if not x.eq(c)] or [c]
                            p, q = z3.Product(fac[i]), z3.Product(fac[j])
                            out.append(z3.Implies(z3.And(a >= 0, b[0] <= d[0]), p <= q))
                            out.append(z3.Implies(z3.And(a >= 0, b[0] < d[0]), p + a <= q))
        return out[:150]

    def relevant(self, facts, goal, extra):
        return facts

    def check(self, facts, goal, ms=1000, full=False):
        """'proved', 'unknown' or 'refuted' (a candidate counterexample exists)"""
        key = (tuple(f.get_id() for f in facts), goal.get_id())
        c = self.cache.get(key)
        if c is not None and (c[0] == 'proved' or c[1] >= ms):
            return c[0]
        t0 = time.time()
        res = 'proved'
        for extra, g in strip(goal):
            r = self.check1(facts + extra, g, ms, full)
            if r != 'proved':
                res = r
                break
        self.cache[key] = (res, ms)
        self.keep.append((facts, goal))
        self.nq += 1
        self.tq += time.time() - t0
        return res

    def prepare(self, facts, goal, order=True):
        forms = []
        for f in facts:
            forms += flat(f)
        neg = z3.Not(goal)
        forms = [self.ex.fm.preprocess(f) if hasattr(self.ex.fm, 'preprocess') else f for f in forms]
        neg = self.ex.fm.preprocess(neg) if hasattr(self.ex.fm, 'preprocess') else neg
        forms.append(neg)
        ax = self.closure(forms, order)
        return forms[:-1] + ax + forms[-1:] if self.ex.fm.mode == 'fp' else forms + ax

    def check1(self, facts, goal, ms, full=False):
        for f in facts:
            if f.eq(goal):
                return 'proved'
        forms = self.prepare(facts, goal)
        s = z3.SimpleSolver()
        s.set('mbqi', False)
        s.set('timeout', ms)
        s.set('random_seed', 1)
        for f in forms:
            s.add(f)
        r = s.check()
        self.last = s
        if r == z3.unsat:
            return 'proved'
        if r == z3.sat:
            return 'refuted'
        if full and 'incomplete' in s.reason_unknown():
            inst = instances(facts, goal)
            if inst:
                s = z3.SimpleSolver()
                s.set('mbqi', False)
                s.set('timeout', ms)
                s.set('random_seed', 1)
                for f in self.prepare(facts + inst, goal):
                    s.add(f)
                if s.check() == z3.unsat:
                    return 'proved'
            s = z3.SimpleSolver()
            s.set('timeout', min(ms, 1500))
            s.set('random_seed', 1)
            for f in forms:
                s.add(f)
            if s.check() == z3.unsat:
                return 'proved'
        return 'unknown'

    # ------------------------------------------------------------ final discharge

    def discharge(self, ob, ms=4000, portfolio=True):
        t0 = time.time()
        parts = strip(ob.goal)
        worst = 'proved'
        solver = []
        for extra, g in parts:
            if self.ex.fm.mode == 'real' and realterms(g) and self.reals(ob.path + extra, g, 1500):
                solver.append('z3')
                continue
            forms = self.prepare(ob.path + extra, g)
            r, sv, model, reason = self.solve(forms, ms, False) if portfolio else ('unknown', '', None, '')
            if r == 'unknown' and portfolio:
                inst = instances(ob.path + extra, g)
                if inst:
                    r, sv, _, _ = self.solve(self.prepare(ob.path + extra + inst, g), ms, False)
            if r != 'proved':
                r, sv, model, reason = self.solve(forms, ms, portfolio)
            solver.append(sv)
            if r != 'proved':
                worst = r
                ob.model = model
                ob.detail = '%s (%s): %s' % (r, reason, str(z3.simplify(g))[:1500])
                break
        ob.status = worst
        ob.solver = '+'.join(sorted(set(solver))) or 'syntactic'
        ob.time = time.time() - t0
        return ob

    def reals(self, facts, g, ms):
        """without the order axioms of the logarithm; comparisons of products and powers
        are also tried between the logarithms of both sides"""
        if self.field(facts, g):
            return True
        alts = [g]
        g2 = z3.simplify(g)
        neg = z3.is_not(g2)
        c = g2.arg(0) if neg else g2
        if z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == REAL and smt.reals.mentions(c):
            a, b = c.children()
            k = c.decl().kind()
            ln = z3.Function('r_log', REAL, REAL)
            f = {z3.Z3_OP_EQ: lambda x, y: x == y, z3.Z3_OP_LE: lambda x, y: x <= y, z3.Z3_OP_GE: lambda x, y: x >= y}.get(k)
            if f is not None:
                d = f(ln(a), ln(b))
                alts.insert(0, [a > 0, b > 0, z3.Not(d) if neg else d])
        for alt in alts:
            gs = alt if isinstance(alt, list) else [alt]
            if all(self.quick(self.prepare(facts, x, order=False), ms) for x in gs):
                return True
        return False

    def field(self, facts, g):
        if not (z3.is_app(g) and any(smt.reals.arith(x) for x in (g, g.arg(0) if g.num_args() else g))):
            return False

        def holds(c):
            key = ('field', tuple(f.get_id() for f in facts), c.get_id())
            if key not in self.cache:
                self.keep.append((facts, c))
                self.cache[key] = self.quick(self.prepare(facts, c, order=False), 600)
            return self.cache[key]

        def nonzero(t):
            return holds(t != 0)
        return field.prove(g, nonzero, holds)

    def quick(self, forms, ms):
        for s in (z3.SimpleSolver(), z3.Solver()):
            s.set('timeout', ms)
            for f in forms:
                s.add(f)
            if s.check() == z3.unsat:
                return True
        return False

    def confirm(self, ob, ms):
        """asks independent solvers about an obligation that was proved"""
        for which in ('cvc5', 'z3-4.8'):
            if which in ob.solver:
                continue
            ok = True
            for extra, g in strip(ob.goal):
                if run_binary(which, self.prepare(ob.path + extra, g), ms) != 'unsat':
                    ok = False
                    break
            if ok:
                return ',confirmed:' + which
        return ''

    def solve(self, forms, ms, portfolio):
        reason = ''
        model = None
        res = 'unknown'
        tries = [('z3', dict(mbqi=False, seed=1), ms)]
        if portfolio:
            tries += [('z3', dict(mbqi=False, seed=3, rev=True), ms), ('z3-4.8', dict(), ms), ('z3', dict(mbqi=False, seed=7, arith=2), ms), ('z3full', dict(), ms * 2), ('cvc5', dict(), ms * 2)]
        if self.ex.fm.mode == 'fp':
            tries = [('cvc5', dict(), ms), ('z3full', dict(), ms)]
            forms = cone(forms)
        for name, opt, lim in tries:
            if name in ('cvc5', 'z3-4.8'):
                r = run_binary(name, forms, lim)
                if r == 'unsat':
                    return 'proved', name, None, ''
                continue
            s = z3.SimpleSolver() if name == 'z3' else z3.Solver()
            s.set('timeout', lim)
            if name == 'z3':
                s.set('mbqi', False)
                s.set('random_seed', opt['seed'])
                if 'arith' in opt:
                    s.set('arith.solver', opt['arith'])
            for f in reversed(forms) if opt.get('rev') else forms:
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                return 'proved', 'z3', None, ''
            reason = s.reason_unknown() if r == z3.unknown else 'counterexample found'
            if r == z3.sat:
                res = 'refuted'
                try:
                    model = str(s.model())[:6000]
                except Exception:
                    pass
                if name == 'z3full':
                    break
            elif model is None and name == 'z3':
                try:
                    model = '(candidate model, quantifiers not saturated)\n' + str(s.model())[:6000]
                except Exception:
                    pass
        return res, 'none', model, reason


def realterms(t):
    w, seen = [t], set()
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == REAL:
            return True
        w.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def cone(forms):
    """the formulas connected with the last one by common symbols (dropping facts is sound)"""
    names = [smt.decls(f) for f in forms]
    keep, syms = {len(forms) - 1}, set(names[-1])
    more = True
    while more:
        more = False
        for k, n in enumerate(names):
            if k not in keep and n & syms:
                keep.add(k)
                syms |= n
                more = True
    return [f for k, f in enumerate(forms) if k in keep]


def recapps(t, recs):
    out, seen, w = [], set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in recs:
                out.append(x)
            w.extend(x.children())
    return out


def divfacts(x, y):
    from .exec import idiv, imod
    q, r = idiv(x, y), imod(x, y)
    return z3.And(
        z3.Implies(z3.And(y > 0, x >= 0), z3.And(x == y * q + r, r >= 0, r < y, q >= 0, q <= x)),
        z3.Implies(z3.And(y > 0, x < 0), z3.And(x == y * q + r, r <= 0, -y < r, q <= 0)),
        z3.Implies(y < 0, z3.And(x == y * q + r, r < -y, y < r)))


def noconst(forms):
    """constant arrays over symbolic values are not understood by every solver"""
    sub, seen, w = {}, set(), list(forms)
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
        elif z3.is_app(x):
            if z3.is_K(x) and not (z3.is_int_value(x.arg(0)) or z3.is_true(x.arg(0)) or z3.is_false(x.arg(0))) and not smt.has_var(x):
                sub[x.get_id()] = (x, smt.fresh('karr', x.sort()))
            w.extend(x.children())
    if not sub:
        return forms
    prs = list(sub.values())
    out = [z3.substitute(f, *prs) for f in forms]
    for x, c in prs:
        i = z3.Const('k!', x.sort().domain())
        out.append(z3.ForAll([i], z3.Select(c, i) == x.arg(0), patterns=[z3.Select(c, i)]))
    return out


def run_binary(which, forms, ms):
    s = z3.Solver()
    for f in (noconst(forms) if which == 'cvc5' else forms):
        s.add(f)
    txt = s.to_smt2()
    if which == 'cvc5':
        txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    cmd = ['cvc5', '--tlimit=%d' % ms, '--nl-ext-tplanes', name] if which == 'cvc5' else ['z3', '-t:%d' % ms, 'smt.mbqi=false', 'auto_config=false', name]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'error'
    except Exception:
        return 'error'
    finally:
        os.unlink(name)
