"""Contracts: parsing of the specification files and evaluation of specification
expressions in symbolic states. Integers in specifications are mathematical; == on
floating point values is identity (NaN == NaN); feq is Go's ==."""
import json
import re
import z3
from fractions import Fraction
from . import smt, ext
from .smt import (INT, BOOL, REAL, STR, STREAM, SLICE, I, ite, s_ref, s_off, s_len, s_cap, s_mk, str_len, str_at, str_sub, str_cat, fresh)
from .state import *
from .ir import Unsupported

AND, OR, NOT, IMP, FA = z3.And, z3.Or, z3.Not, z3.Implies, smt.FA


class SpecError(Exception):
    pass


# ---------------------------------------------------------------- lexer and parser

TOK = re.compile(r'''\s*(?:
 (?P<num>\d+\.\d+(?:[eE][+-]?\d+)?|0x[0-9A-Fa-f]+|\d+)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<chr>'(?:[^'\\]|\\.|\\x[0-9a-fA-F]{2})')
|(?P<id>[$A-Za-z_][$A-Za-z_0-9]*)
|(?P<op><==>|==>|:=|::|==|!=|<=|>=|&&|\|\||[-+*/%<>!()\[\]{},.:?;])
)''', re.X)


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SpecError('cannot read: ' + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    out.append(('end', ''))
    return out


def unesc(t):
    return t[1:-1].encode().decode('unicode_escape').encode('latin1')


class Parser:
    def __init__(self, text):
        self.t, self.i = lex(text), 0
        self.text = text

    def peek(self):
        return self.t[self.i][1] if self.t[self.i][0] not in ('str', 'chr') else None

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, s):
        if self.peek() == s and self.kind() in ('op', 'id'):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise SpecError('expected %s at %s in: %s' % (s, self.t[self.i:self.i + 4], self.text))

    def parse(self):
        e = self.expr()
        if self.kind() != 'end':
            raise SpecError('trailing input %s in: %s' % (self.t[self.i:self.i + 4], self.text))
        return e

    def type(self):
        s = ''
        while True:
            k, v = self.t[self.i]
            if k == 'id' or v in ('*', '.', '[', ']'):
                s += v
                self.i += 1
                if k == 'id' and self.peek() != '.' and not s.endswith('map'):
                    return s
            else:
                return s

    def expr(self):
        if self.peek() in ('forall', 'exists') and self.kind() == 'id':
            q = self.next()[1]
            vs = []
            while True:
                names = [self.next()[1]]
                while self.accept(','):
                    names.append(self.next()[1])
                ty = 'int'
                if self.kind() == 'id':
                    ty = self.type()
                vs += [(n, ty) for n in names]
                if not self.accept(';'):
                    break
            self.expect('::')
            trig = []
            while self.accept('{'):
                tr = [self.expr()]
                while self.accept(','):
                    tr.append(self.expr())
                self.expect('}')
                trig.append(tr)
            return ('q', q, vs, self.expr(), trig)
        if self.peek() == 'let' and self.kind() == 'id':
            self.next()
            n = self.next()[1]
            self.expect(':=')
            e = self.iff()
            self.expect(';')
            return ('let', n, e, self.expr())
        return self.iff()

    def iff(self):
        a = self.impl()
        while self.accept('<==>'):
            a = ('bin', '<==>', a, self.impl())
        return a

    def impl(self):
        a = self.cond()
        if self.accept('==>'):
            b = self.expr() if self.peek() in ('forall', 'exists', 'let') else self.impl()
            return ('bin', '==>', a, b)
        return a

    def cond(self):
        a = self.oor()
        if self.accept('?'):
            b = self.cond()
            self.expect(':')
            c = self.cond()
            return ('ite', a, b, c)
        return a

    def oor(self):
        a = self.aand()
        while self.accept('||'):
            a = ('bin', '||', a, self.aand())
        return a

    def aand(self):
        a = self.cmp()
        while self.accept('&&'):
            b = self.expr() if self.peek() in ('forall', 'exists') and self.kind() == 'id' else self.cmp()
            a = ('bin', '&&', a, b)
        return a

    def cmp(self):
        a = self.add()
        res = None
        while self.kind() == 'op' and self.peek() in ('==', '!=', '<', '<=', '>', '>='):
            op = self.next()[1]
            b = self.add()
            c = ('bin', op, a, b)
            res = c if res is None else ('bin', '&&', res, c)
            a = b
        return res if res is not None else a

    def add(self):
        a = self.mul()
        while self.kind() == 'op' and self.peek() in ('+', '-'):
            op = self.next()[1]
            a = ('bin', op, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.kind() == 'op' and self.peek() in ('*', '/', '%'):
            op = self.next()[1]
            a = ('bin', op, a, self.unary())
        return a

    def unary(self):
        if self.accept('-'):
            return ('un', '-', self.unary())
        if self.accept('!'):
            return ('un', '!', self.unary())
        return self.postfix()

    def postfix(self):
        a = self.primary()
        while True:
            if self.accept('.'):
                a = ('sel', a, self.next()[1])
            elif self.accept('['):
                if self.accept('*'):
                    self.expect(']')
                    a = ('all', a)
                    continue
                lo = None
                if self.peek() != ':':
                    lo = self.expr()
                if self.accept(':'):
                    hi = None
                    if self.peek() != ']':
                        hi = self.expr()
                    self.expect(']')
                    a = ('slice', a, lo, hi)
                else:
                    self.expect(']')
                    a = ('idx', a, lo)
            elif self.peek() == '(' and self.kind() == 'op':
                self.next()
                args = []
                if not self.accept(')'):
                    args.append(self.expr())
                    while self.accept(','):
                        args.append(self.expr())
                    self.expect(')')
                a = ('call', a, args)
            else:
                return a

    def primary(self):
        k, v = self.next()
        if k == 'num':
            if v.startswith('0x'):
                return ('num', Fraction(int(v, 16)), False)
            return ('num', Fraction(v), '.' in v or 'e' in v)
        if k == 'str':
            return ('str', unesc(v))
        if k == 'chr':
            return ('num', Fraction(unesc(v)[0]), False)
        if k == 'id':
            return ('id', v)
        if v == '(':
            e = self.expr()
            self.expect(')')
            return e
        raise SpecError('unexpected %r in: %s' % (v, self.text))


# ---------------------------------------------------------------- contracts

ALIAS = {'radolan.': 'gitlab.cs.fau.de/since/radolan.', 'vis.': 'gitlab.cs.fau.de/since/radolan/radolan2png/vis.',
         'color.': 'image/color.', 'main.': 'gitlab.cs.fau.de/since/radolan/radolan2png.'}


def expand(t):
    return re.sub(r'(?<![\w/.])(radolan|vis|color|main)\.', lambda m: ALIAS[m.group(1) + '.'], t)


def canon(t):
    t = re.sub(r'(?<![\w.])byte\b', 'uint8', t)
    return re.sub(r'(?<![\w.])rune\b', 'int32', t)


class Clause:
    def __init__(self, text, props=(), name='', vars=()):
        self.text, self.props, self.name, self.vars = text, tuple(props), name, vars
        self.defines = None
        self.outer = False
        t = text
        m = re.match(r'\s*(\w+)\s*:=\s*(.*)$', t, re.S)
        if m:
            self.defines = m.group(1)
            self.expr = Parser(m.group(2)).parse()
        else:
            self.expr = Parser(t).parse()


class Contract:
    fieldprops = {}     # field of the composite -> properties about it

    def __init__(self, name, params, results):
        self.name, self.params, self.results = name, params, results
        self.requires, self.ensures, self.modifies = [], [], []
        self.invariants, self.decreases, self.closure = [], [], []
        self.assumed = []
        self.ghosts = []        # definitions of ghost attributes of the object the function creates
        self.lets = {}
        self.reveal = set()
        self.floats = 'uf'
        self.split = False      # keep execution paths apart
        self.inline = False
        self.lemma = False
        self.hints = []
        self.short = name.split('/')[-1]
        self.safety = ('C01',)
        self.frameprops = ('C18',)
        self.extra = ()
        self.public = False
        self.timeout = None
        self.noreturn = False
        self.runs = []          # lemmas: calls of the real code, executed in order
        self.expand = set()     # callees executed in place although they have a contract
        self.focus = None       # only these clauses of the callees' contracts are used

    def framing(self, key, name):
        """properties a write outside the frame bears on: for functions that take part in building a
        composite the fields of the composite belong to the properties about them"""
        if self.public or self.lemma or not self.frameprops:
            return frozenset(self.frameprops)
        if key[0] == 'F' and name.startswith('H.radolan.Composite.'):
            return self.fieldprops.get(name.split('.')[3].split('#')[0], frozenset(self.frameprops))
        if key[0] == 'E':
            return frozenset(self.frameprops) | frozenset(p for e in self.ensures for p in e.props if p[0] == 'C')
        return frozenset(self.frameprops)

    @property
    def reach(self):
        """every property some obligation of the function may bear on"""
        s = set(self.allprops) | set(self.frameprops) | set(self.safety)
        if not self.public and not self.lemma and any(t.endswith('radolan.Composite') and t[0] == '*' for _, t in self.params):
            for v in self.fieldprops.values():
                s |= v
        return s

    @property
    def safeprops(self):
        return self.allprops if self.lemma else self.safety

    @property
    def allprops(self):
        s = set(self.safety) | set(self.extra)
        for e in self.ensures + self.closure:
            s |= {p for p in e.props if p[0] == 'C'}
        return frozenset(s)

    def bind(self, args, fn):
        return {n: (v, t) for (n, _), (_, t), v in zip(self.params, fn.params, args)}

    def definitions(self):
        return {e.defines: e.expr for e in self.ensures if e.defines}

    def eval_modifies(self, ex, ev):
        out = []
        for m in self.modifies:
            out += ev.mods(m.expr)
        return out


class Rec:
    """recursive specification function, unfolded at ground applications"""
    maxdepth = 1

    def __init__(self, specs, name, params, rt, body, ground, depth):
        self.specs, self.name, self.params, self.rt, self.body = specs, name, params, rt, body
        self.groundnames = ground
        self.ground = [i for i, (n, t) in enumerate(params) if not ground or n in ground]
        self.maxdepth = depth
        self._f = {}

    def decl(self, ex):
        k = ex.fm.mode
        if k not in self._f:
            self._f[k] = z3.Function(self.name, *([specsort(ex, t) for _, t in self.params] + [specsort(ex, self.rt)]))
        return self._f[k]

    def equation(self, ex, t):
        args, bound = [], []
        for i, (n, ty) in enumerate(self.params):
            a = t.arg(i)
            if i not in self.ground:
                a = z3.Const('rv_%s!' % n, specsort(ex, ty))
                bound.append(a)
            args.append(a)
        env = {n: (a, ty) for (n, ty), a in zip(self.params, args)}
        ev = Eval(ex, None, None, env, None)
        app = self.decl(ex)(*args)
        v, vt = ev.ev(self.body)
        v = ev.coerce(v, vt, self.rt)
        eq = app == v
        if bound:
            eq = FA(bound, eq, patterns=[app])
        return eq


def specsort(ex, t):
    t = expand(t)
    if t == 'row':
        return ext.ARR
    if t == 'stream':
        return STREAM
    if t == 'int':
        return INT
    if t == 'real':
        return REAL
    if t == 'color':
        return ext.COLORD
    if t == 'bool':
        return BOOL
    if t == 'string':
        return STR
    return ex.sort(t)


class Specs:
    KW = ('fields', 'func', 'requires', 'modifies', 'ensures', 'invariant', 'decreases', 'floats', 'inline', 'pure', 'rec', 'closure', 'assumed', 'extra',
          'lemma', 'public', 'safety', 'table', 'const', 'hint', 'timeout', 'global', 'frame', 'let', 'reveal', 'opaque', 'run', 'expand', 'ghost', 'focus', 'split')

    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.order = []
        self.pures = {}
        self.recs = {}
        self.tables = {}
        self.consts = {}
        self.globals = []
        self.lemmas = []
        self.skipped = []

    def for_fn(self, fn):
        ct = self.contracts.get(fn.name)
        if ct is None or ct.lemma:
            return None
        return ct if self.matches(fn, ct) else None

    def matches(self, fn, ct):
        if len(ct.params) != len(fn.params) or len(ct.results) != len(fn.results):
            return False
        return all(canon(a[1]) == canon(b[1]) for a, b in list(zip(ct.params, fn.params)) + list(zip(ct.results, fn.results)))

    def load(self, path):
        clauses = []
        for ln in open(path):
            ln = ln.rstrip('\n')
            s = ln.strip()
            if s.startswith('//@'):
                s = s[3:].strip()
            elif s.startswith('//') or not s or s.startswith("package "):
                continue
            else:
                raise SpecError('not a specification line: ' + ln)
            if not s or s.startswith('#'):
                continue
            w = re.match(r'\w+', s)
            if w and w.group() in self.KW and not (clauses and clauses[-1][0] == 'table' and False):
                clauses.append([w.group(), s[len(w.group()):].strip()])
            else:
                if not clauses:
                    raise SpecError('continuation without clause: ' + ln)
                clauses[-1][1] += '\n' + s
        ct = None
        for kw, body in clauses:
            ct = self.clause(kw, body, ct)

    def sig(self, body):
        m = re.match(r'(\(.*?\)\.\w+(?:\$\d+)?|[\w.]+(?:\$\d+)?)\s*\((.*?)\)\s*(?:\((.*?)\))?\s*$', body, re.S)
        if not m:
            raise SpecError('bad function header: ' + body)
        name, ps, rs = m.groups()

        def plist(s):
            out, pend = [], []
            for p in [x.strip() for x in splitcomma(s or '')]:
                if not p:
                    continue
                w = p.split(None, 1)
                pend.append(w[0])
                if len(w) == 2:
                    out += [(n, expand(w[1].strip())) for n in pend]
                    pend = []
            return out
        return expand(name), plist(ps), plist(rs)

    def clause(self, kw, body, ct):
        if kw == 'fields':
            ps, fs = body.split(':')
            for f in fs.replace(',', ' ').split():
                Contract.fieldprops[f] = Contract.fieldprops.get(f, frozenset()) | frozenset(ps.replace(',', ' ').split())
            return ct
        if kw in ('func', 'lemma'):
            name, ps, rs = self.sig(body)
            ct = Contract(name, ps, rs)
            ct.lemma = kw == 'lemma'
            if ct.lemma:
                ct.safety, ct.frameprops = (), ()
                self.lemmas.append(ct)
            else:
                self.contracts[name] = ct
            self.order.append(ct)
            return ct
        if kw == 'pure':
            m = re.match(r'(\w+)\s*\((.*?)\)\s*=\s*(.*)$', body, re.S)
            ps = [p.strip().split()[0] for p in m.group(2).split(',') if p.strip()]
            self.pures[m.group(1)] = (ps, Parser(m.group(3)).parse())
            return ct
        if kw in ('rec', 'opaque'):
            m = re.match(r'(\w+)\s*\((.*?)\)\s*([\w.]+)\s*(?:ground\s*\((.*?)\))?\s*(?:depth\s*(\d+))?\s*=\s*(.*)$', body, re.S)
            ps, pend = [], []
            for p in m.group(2).split(','):
                w = p.strip().split()
                pend.append(w[0])
                if len(w) == 2:
                    ps += [(n, w[1]) for n in pend]
                    pend = []
            g = [x.strip() for x in m.group(4).split(',')] if m.group(4) else []
            self.recs[m.group(1)] = Rec(self, m.group(1), ps, m.group(3), Parser(m.group(6)).parse(), g, int(m.group(5) or 1))
            self.recs[m.group(1)].opaque = kw == 'opaque'
            return ct
        if kw == 'const':
            n, e = body.split('=', 1)
            self.consts[n.strip()] = Parser(e).parse()
            return ct
        if kw == 'table':
            m = re.match(r'(\w+)\s*(\w+)\s*(?:default\s+(.*?))?\s*\{(.*)\}\s*$', body, re.S)
            ents = []
            for e in splitcomma(m.group(4)):
                if not e.strip():
                    continue
                k, v = e.split(':', 1)
                ents.append((unesc(k.strip()), Parser(v).parse()))
            self.tables[m.group(1)] = (m.group(2), Parser(m.group(3)).parse() if m.group(3) else None, ents)
            return ct
        if kw == 'global':
            self.globals.append(self.mk(body))
            return ct
        if ct is None:
            raise SpecError('clause outside a function: ' + kw)
        if kw == 'requires':
            ct.requires.append(self.mk(body))
        elif kw == 'ensures':
            ct.ensures.append(self.mk(body))
        elif kw == 'assumed':
            ct.assumed.append(self.mk(body))
        elif kw == 'ghost':
            ct.ghosts.append(self.mk(body))
        elif kw == 'modifies':
            for p in splitcomma(body):
                ct.modifies.append(Clause(p))
        elif kw == 'invariant':
            outer = re.match(r'outer\b\s*', body)
            ct.invariants.append(self.mk(body[outer.end():] if outer else body))
            ct.invariants[-1].outer = bool(outer)
        elif kw == 'decreases':
            ct.decreases.append(self.mk(body))
        elif kw == 'closure':
            ct.closure.append(self.mk(body))
        elif kw == 'run':
            m = re.match(r'(?:([\w, ]*?)\s*:=\s*)?(\(.*?\)\.\w+|[\w.]+)\s*\((.*)\)\s*$', body, re.S)
            if not m:
                raise SpecError('bad run clause: ' + body)
            ct.runs.append(([n.strip() for n in (m.group(1) or '').split(',')], expand(m.group(2)), [Parser(a).parse() for a in splitcomma(m.group(3))], body))
        elif kw == 'split':
            ct.split = True
        elif kw == 'expand':
            ct.expand |= {expand(x.strip()) for x in body.split(',')}
        elif kw == 'focus':
            ct.focus = set(body.replace(',', ' ').split())
        elif kw == 'reveal':
            ct.reveal |= set(body.replace(',', ' ').split())
        elif kw == 'let':
            n, e = body.split('=', 1)
            ct.lets[n.strip()] = Parser(e).parse()
        elif kw == 'floats':
            ct.floats = body
        elif kw == 'inline':
            ct.inline = True
        elif kw == 'public':
            ct.public = True
        elif kw == 'extra':
            ct.extra = tuple(body.replace(',', ' ').split())
        elif kw == 'safety':
            ct.safety = tuple(body.replace(',', ' ').split())
        elif kw == 'frame':
            ct.frameprops = tuple(body.replace(',', ' ').split())
        elif kw == 'timeout':
            ct.timeout = int(body)
        elif kw == 'hint':
            ct.hints.append(self.mk(body))
        return ct

    def mk(self, body):
        props, name, vars = (), '', ()
        m = re.match(r'\[([\w, ]*)\]\s*', body)
        if m:
            props = [p.strip() for p in m.group(1).split(',') if p.strip()]
            body = body[m.end():]
        m = re.match(r'with\s*\((.*?)\)\s*', body, re.S)
        if m:
            vs, pend = [], []
            for p in splitcomma(m.group(1)):
                w = p.strip().split(None, 1)
                pend.append(w[0])
                if len(w) == 2:
                    vs += [(n, expand(w[1].strip())) for n in pend]
                    pend = []
            vars = tuple(vs)
            body = body[m.end():]
        m = re.match(r'([\w-]+)\s*:(?![:=])\s*', body)
        if m:
            name = m.group(1)
            body = body[m.end():]
        return Clause(body, props, name, vars)


def splitcomma(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{':
                d += 1
            elif ch in ')]}':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur)
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return out


class Mod:
    """something a function may modify: one object of a region (elements lo..hi of it), or
    all objects satisfying a predicate"""

    def __init__(self, key, ref, lo=None, hi=None, pred=None):
        self.key, self.ref, self.lo, self.hi, self.pred = key, ref, lo, hi, pred


# ---------------------------------------------------------------- evaluation

FT = ('float64', 'float32', 'untyped float')


class Eval:
    def __init__(self, ex, st, old, env, ct, n=None, entry=None):
        self.ex, self.st, self.old, self.env, self.ct = ex, st, old, env, ct
        self.n, self.entry = n, entry

    def sub(self, **kw):
        e = Eval(self.ex, self.st, self.old, self.env, self.ct, self.n, self.entry)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    # -- interface

    def facts(self, e):
        return [self.evb(e, True)]

    def goals(self, e):
        return [self.evb(e, False)]

    def value(self, e, t):
        v, vt = self.ev(e)
        return self.coerce(v, vt, t)

    # -- typing helpers

    def kind(self, t):
        if t in ('row', 'stream', 'color', 'real'):
            return t
        if t == 'untyped float':
            return 'float'
        if t in ('untyped int',):
            return 'int'
        if t == 'nil':
            return 'nil'
        return self.ex.kind(t)

    def coerce(self, v, vt, t):
        if vt == t:
            return v
        k = self.kind(t)
        if vt == 'untyped int' and k == 'float':
            return self.ex.fm.const(self.ex.fbits(t), v.as_long())
        if vt == 'untyped float':
            if k == 'float':
                return self.ex.fm.const(self.ex.fbits(t), v)
            if k == 'real':
                return z3.RealVal(str(v))
        if vt == 'untyped int' and k == 'real':
            return z3.RealVal(v.as_long())
        if vt == 'int' and k == 'real':
            return z3.ToReal(v)
        if vt == 'nil':
            return self.ex.zero(t)
        return v

    def unify(self, a, ta, b, tb):
        ut = ('untyped int', 'untyped float', 'nil')
        if ta in ut and tb in ut:
            if 'untyped float' in (ta, tb):
                f = lambda v, t: v if t == 'untyped float' else Fraction(v.as_long())
                return f(a, ta), f(b, tb), 'untyped float'
            return a, b, ta
        if ta in ut:
            return self.coerce(a, ta, tb), b, tb
        if tb in ut:
            return a, self.coerce(b, tb, ta), ta
        if ta == 'real' or tb == 'real':
            return self.coerce(a, ta, 'real'), self.coerce(b, tb, 'real'), 'real'
        return a, b, ta

    # -- formulas

    def evb(self, e, pol):
        """boolean term; pol: the formula is going to be assumed (True) or proved (False)"""
        k = e[0]
        if k == 'bin':
            op = e[1]
            if op == '&&':
                return AND(self.evb(e[2], pol), self.evb(e[3], pol))
            if op == '||':
                return OR(self.evb(e[2], pol), self.evb(e[3], pol))
            if op == '==>':
                a = z3.simplify(self.evb0(e[2], not pol))
                if z3.is_false(a):
                    return z3.BoolVal(True)
                return IMP(a, self.evb(e[3], pol))
            if op == '<==>':
                a, b = self.evb(e[2], pol), self.evb(e[3], pol)
                if not smt.has_quant(a) and not smt.has_quant(b):
                    return a == b
                return AND(IMP(self.evb(e[2], not pol), b), IMP(self.evb(e[3], not pol), a))
        if k == 'un' and e[1] == '!':
            return NOT(self.evb(e[2], not pol))
        if k == 'q':
            return self.quant(e, pol)
        if k == 'let':
            v = self.ev(e[2])
            return self.sub(env={**self.env, e[1]: v}).evb(e[3], pol)
        if k == 'ite':
            c = self.evb0(e[1], pol)
            c = z3.simplify(c)
            if z3.is_true(c):
                return self.evb(e[2], pol)
            if z3.is_false(c):
                return self.evb(e[3], pol)
            return AND(IMP(c, self.evb(e[2], pol)), IMP(NOT(c), self.evb(e[3], pol)))
        if k == 'call' and e[1][0] == 'id':
            f = e[1][1]
            if f == 'old':
                return self.sub(st=self.old).evb(e[2][0], pol)
            if f == 'entry':
                return self.sub(st=self.entry).evb(e[2][0], pol)
            if f in self.ex.specs.pures and f not in self.env:
                ps, body = self.ex.specs.pures[f]
                if len(ps) != len(e[2]):
                    raise SpecError('wrong number of arguments for ' + f)
                env = {n: self.ev(a) for n, a in zip(ps, e[2])}
                return self.sub(env={**self.env, **env}).evb(body, pol)
        v, t = self.ev(e)
        return v

    def evb0(self, e, pol):
        return self.evb(e, pol)

    def quant(self, e, pol):
        _, q, vs, body, trig = e
        consts, env = [], dict(self.env)
        for n, t in vs:
            t = expand(t)
            c = fresh('q_' + n, specsort(self.ex, t))
            consts.append(c)
            env[n] = (c, t)
        sub = self.sub(env=env)
        fa = (q == 'forall')
        b = sub.evb(body, pol)
        pats = []
        for tr in trig:
            ts = [sub.ev(x)[0] for x in tr]
            pats.append(ts)
        if not fa:
            b = NOT(b)
        assume = pol == fa
        if not assume:
            r = FA(consts, b)
        else:
            r = self.mkforall(consts, b, pats)
        return r if fa else NOT(r)

    def mkforall(self, consts, body, pats):
        """universally quantified fact with usable triggers"""
        if pats:
            ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]
            return FA(consts, body, patterns=ps)
        ids = {c.get_id(): c for c in consts}
        accs = accesses(body, consts)
        # one access per variable
        best = []
        chosen = choose(accs, consts)
        if not chosen:
            return FA(consts, body)
        outs = []
        for ch in chosen[:3]:
            b = body
            vs = list(consts)
            pterms = {}
            todo = [c for c in consts][::-1]
            cur = dict(ch)     # var index -> access (term, idxarg position, coef, rest)
            terms = [a[0] for a in cur.values()]
            for k, c in reversed(list(enumerate(consts))):
                a = cur.get(k)
                if a is None or a[2] is None:
                    continue
                term, idx, coef, rest = a
                # earlier substitutions may have changed the terms
                idx = subst_all(idx, pterms_subs(pterms))
                rest = subst_all(rest, pterms_subs(pterms))
                if z3.is_const(idx) and idx.eq(c):
                    continue
                j = z3.Int(smt.freshname('j'))
                val = (j - rest) if coef == 1 else (rest - j)
                subs = [[(idx, j)], [(c, z3.simplify(val))]]
                b = subst_all(b, subs)
                pterms[k] = subs
                vs[k] = j
            ts = [subst_all(t, pterms_subs(pterms)) for t in terms]
            # drop terms covered by others
            uniq = []
            for t in ts:
                if not any(t.eq(u) for u in uniq):
                    uniq.append(t)
            allv = {v.get_id() for v in vs}
            full = [t for t in uniq if vars_of(t, vs) == allv]
            try:
                if full:
                    p = full[0]
                else:
                    p = z3.MultiPattern(*uniq)
                outs.append(FA(vs, b, patterns=[p]))
            except z3.Z3Exception:
                outs.append(FA(consts, body))
        return outs[0] if len(outs) == 1 else AND(*outs)

    # -- values

    def ev(self, e):
        k = e[0]
        ex = self.ex
        if k == 'num':
            if e[2]:
                return e[1], 'untyped float'
            return I(int(e[1])), 'untyped int'
        if k == 'str':
            return smt.strlit(e[1]), 'string'
        if k == 'id':
            return self.ident(e[1])
        if k == 'q':
            return self.evb(e, False), 'bool'
        if k == 'let':
            v = self.ev(e[2])
            return self.sub(env={**self.env, e[1]: v}).ev(e[3])
        if k == 'ite':
            c = z3.simplify(self.evb(e[1], False))
            a, ta = self.ev(e[2])
            b, tb = self.ev(e[3])
            a, b, t = self.unify(a, ta, b, tb)
            if t == 'untyped float':
                a, b, t = ex.fm.const(64, a), ex.fm.const(64, b), 'float64'
            if t == 'untyped int':
                t = 'int'
            return mergev(c, a, b), t
        if k == 'un':
            a, t = self.ev(e[2])
            if e[1] == '!':
                return NOT(a), 'bool'
            if t == 'untyped float':
                return -a, t
            if self.kind(t) == 'float':
                return ex.fm.neg(ex.fbits(t), a), t
            return (I(-a.as_long()) if z3.is_int_value(a) else -a), t
        if k == 'bin':
            return self.binop(e)
        if k == 'sel':
            return self.select(e)
        if k == 'idx':
            return self.index(e)
        if k == 'slice':
            a, t = self.ev(e[1])
            lo = self.ev(e[2])[0] if e[2] is not None else I(0)
            if self.kind(t) == 'string':
                hi = self.ev(e[3])[0] if e[3] is not None else str_len(a)
                return ex.substr(a, lo, hi), t
            if self.kind(t) == 'slice':
                hi = self.ev(e[3])[0] if e[3] is not None else s_len(a)
                return s_mk(s_ref(a), ex.addn(s_off(a), lo), ex.addn(hi, -lo) if not z3.is_int_value(lo) else ex.addn(hi, I(-lo.as_long())),
                            ex.addn(s_cap(a), -lo) if not z3.is_int_value(lo) else ex.addn(s_cap(a), I(-lo.as_long()))), t
            raise SpecError('slice of ' + t)
        if k == 'call':
            return self.call(e)
        raise SpecError('cannot evaluate %r' % (k,))

    def ident(self, n):
        if n not in self.env and self.ct is not None and n in self.ct.lets:
            return self.ev(self.ct.lets[n])
        if n in self.env:
            return self.env[n]
        ex = self.ex
        if n == 'true':
            return z3.BoolVal(True), 'bool'
        if n == 'false':
            return z3.BoolVal(False), 'bool'
        if n == 'nil':
            return None, 'nil'
        if n == 'NaN32':
            return ex.fm.nan(32), 'float32'
        if n == 'NaN64':
            return ex.fm.nan(64), 'float64'
        if n == '$n':
            return self.n, 'int'
        if n in ex.specs.consts:
            return self.ev(ex.specs.consts[n])
        for p in (self.pkg(), ALIAS['radolan.'][:-1], ALIAS['vis.'][:-1]):
            g = p + '.' + n
            if g in ex.prog.consts:
                return self.named_const(g)
            if g in ex.prog.globals:
                t = ex.elem(ex.prog.globals[g])
                return ex.globget(self.st, PGlob(g), t), t
        raise SpecError('unknown name ' + n)

    def named_const(self, g):
        ex = self.ex
        t, kd, x = ex.prog.consts[g]
        if t in ('untyped int', 'untyped rune'):
            return I(int(x)), 'untyped int'
        if t == 'untyped float':
            return Fraction(x), t
        t = ex.T.norm(t)
        if kd == 'Bool':
            return z3.BoolVal(x == 'true'), t
        if kd == 'String':
            return smt.strlit(json.loads(x).encode('latin1')), t
        if self.kind(t) == 'float':
            return ex.fm.const(ex.fbits(t), Fraction(x)), t
        return I(int(x)), t

    def pkg(self):
        n = self.ct.name if self.ct else ''
        m = re.match(r'\(?\*?([\w./]*?)\.\w', n)
        return m.group(1) if m else ''

    def binop(self, e):
        op = e[1]
        ex = self.ex
        if op in ('&&', '||', '==>', '<==>'):
            return self.evb(e, False), 'bool'
        a, ta = self.ev(e[2])
        b, tb = self.ev(e[3])
        if op in ('==', '!='):
            r = self.equals(a, ta, b, tb)
            return (r if op == '==' else NOT(r)), 'bool'
        a, b, t = self.unify(a, ta, b, tb)
        if op in ('<', '<=', '>', '>='):
            k = self.kind(t)
            if t == 'untyped float':
                return z3.BoolVal(eval('a %s b' % op, {'a': a, 'b': b})), 'bool'
            if k == 'float':
                return ex.fm.cmp(op, ex.fbits(t), a, b), 'bool'
            if k == 'string':
                return ex.binop(self.st, op, a, b, 'string', 'bool', None), 'bool'
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op], 'bool'
        k = self.kind(t)
        if t == 'untyped float':
            return {'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else 0}[op], t
        if k == 'float':
            return ex.fm.binop(op, ex.fbits(t), a, b), t
        if k == 'real':
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op](), t
        if k == 'string' and op == '+':
            return ex.binop(self.st, '+', a, b, 'string', 'string', None), t
        # integers
        if op == '+':
            return ex.addn(a, b), t
        if op == '-':
            return ex.addn(a, I(-b.as_long()) if z3.is_int_value(b) else -b), t
        if op == '*':
            if z3.is_int_value(a) and z3.is_int_value(b):
                return I(a.as_long() * b.as_long()), t
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a) and a.as_long() == 1:
                return b, t
            return a * b, t
        if op in '/%':
            if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() > 0:
                return I(a.as_long() // b.as_long() if op == '/' else a.as_long() % b.as_long()), t
            if z3.is_int_value(b):
                return (a / b if op == '/' else a % b), t
            from .exec import idiv, imod
            return (idiv if op == '/' else imod)(a, b), t
        raise SpecError('operator ' + op)

    def equals(self, a, ta, b, tb):
        ex = self.ex
        if ta == 'nil' or tb == 'nil':
            if ta == 'nil':
                a, ta, b, tb = b, tb, a, ta
            if ta == 'nil':
                return z3.BoolVal(True)
            k = self.kind(ta)
            if k == 'slice':
                return s_ref(a) == 0
            if isinstance(a, VIface):
                return a.term == 0
            return ex.equal(a, ex.zero(ta), ta)
        a, b, t = self.unify(a, ta, b, tb)
        return self.same(a, b, t)

    def same(self, a, b, t):
        ex = self.ex
        k = self.kind(t)
        if k == 'float':
            if t == 'untyped float':
                return z3.BoolVal(a == b)
            return ex.fm.same(a, b)
        if isinstance(a, (VStruct, VArr)):
            ts = [ft for _, ft in ex.fields(t)] if isinstance(a, VStruct) else [ex.elem(t)] * len(a.vals)
            return AND(*[self.same(x, y, ft) for x, y, ft in zip(a.vals, b.vals, ts)])
        if isinstance(a, VIface) or isinstance(b, VIface):
            f = lambda v: v.term if isinstance(v, VIface) else v
            return f(a) == f(b)
        if isinstance(a, z3.ExprRef) and a.sort() == STR:
            x, y = smt.lit_of(a), smt.lit_of(b)
            if x is not None and y is not None:
                return z3.BoolVal(x == y)
        return a == b

    def select(self, e):
        ex = self.ex
        if e[1][0] == 'id' and e[1][1] + '.' in ALIAS and e[1][1] not in self.env:
            g = ALIAS[e[1][1] + '.'] + e[2]
            if g in ex.prog.consts:
                return self.named_const(g)
            if g in ex.prog.globals:
                t = ex.elem(ex.prog.globals[g])
                return ex.globget(self.st, PGlob(g), t), t
            raise SpecError('unknown variable ' + g)
        a, t = self.ev(e[1])
        if t == 'color':
            acc = {'R': ext.COLORD.cr, 'G': ext.COLORD.cg, 'B': ext.COLORD.cb, 'A': ext.COLORD.ca}[e[2]]
            return acc(a), 'int'
        if self.kind(t) == 'ptr':
            s = ex.T.norm(ex.T.u(t)['e'])
            for i, (n, ft) in enumerate(ex.fields(s)):
                if n == e[2]:
                    if isinstance(a, PCell):
                        return ex.cellget(self.st, a.cell, a.path + (i,)), ft
                    return ex.load(self.st, PField(s, a, (i,)), ft), ft
            raise SpecError('no field %s in %s' % (e[2], s))
        for i, (n, ft) in enumerate(ex.fields(t)):
            if n == e[2]:
                return a.vals[i], ft
        raise SpecError('no field %s in %s' % (e[2], t))

    def index(self, e):
        ex = self.ex
        a, t = self.ev(e[1])
        i, it = self.ev(e[2])
        k = self.kind(t)
        if k == 'row':
            return z3.Select(a, i), 'int'
        if k == 'string':
            return str_at(a, i), 'uint8'
        if k == 'slice':
            et = ex.elem(t)
            return ex.rd(self.st, lambda path, lt: ex.rd_leaf(self.st, ('E', et, path, lt), s_ref(a), ex.addn(s_off(a), i)), et), et
        if k == 'map':
            v, ok = ex.maplookup(self.st, a, i, ex.T.ukey(t))
            return v, ex.T.norm(ex.T.u(t)['e'])
        if k == 'array':
            return ex.path_get(a, (z3.simplify(i),)), ex.elem(t)
        raise SpecError('index of ' + t)

    def call(self, e):
        ex = self.ex
        if e[1][0] == 'sel' and e[1][1] == ('id', 'math'):
            args = [self.coerce(*self.ev(a), 'float64') for a in e[2]]
            if e[1][2] == 'pow10':
                return ex.fm.pow10(self.ev(e[2][0])[0]), 'float64'
            if e[1][2] == 'inf':
                return ex.fm.inf(64, 1), 'float64'
            return ex.fm.math(e[1][2], *args), 'float64'
        if e[1][0] != 'id':
            raise SpecError('call of an expression')
        f, args = e[1][1], e[2]
        if f in self.env:
            v, t = self.env[f]
            if isinstance(v, (FnSym, FnRef, Closure)):
                sig = ex.T.u(t)
                av = [self.coerce(*self.ev(a), ex.T.norm(pt)) for a, pt in zip(args, sig['params'])]
                if isinstance(v, FnSym):
                    r = ex.app_unknown(self.st.copy(), v, av, {'sig': ex.T.ukey(t)})
                else:
                    r = self.run_pure(v, av, t)
                return r, ex.T.norm(sig['results'][0])
        if f == 'old':
            return self.sub(st=self.old).ev(args[0])
        if f == 'entry':
            return self.sub(st=self.entry).ev(args[0])
        sp = ex.specs
        if f in sp.pures:
            ps, body = sp.pures[f]
            if len(ps) != len(args):
                raise SpecError('wrong number of arguments for ' + f)
            env = {n: self.ev(a) for n, a in zip(ps, args)}
            return self.sub(env={**self.env, **env}).ev(body)
        if f in sp.recs:
            r = sp.recs[f]
            av = [self.coerce(*self.ev(a), t) for a, (n, t) in zip(args, r.params)]
            return r.decl(ex)(*av), r.rt
        if f in sp.tables:
            t, d, ents = sp.tables[f]
            key = self.ev(args[0])[0]
            r = self.coerce(*self.ev(d), t)
            for k, v in reversed(ents):
                r = mergev(self.same(key, smt.strlit(k), 'string'), self.coerce(*self.ev(v), t), r)
            return r, t
        if f.startswith('in_') and f[3:] in sp.tables:
            key = self.ev(args[0])[0]
            return OR(*[self.same(key, smt.strlit(k), 'string') for k, v in sp.tables[f[3:]][2]]), 'bool'
        m = getattr(self, 'b_' + f, None)
        if m is None:
            raise SpecError('unknown function ' + f)
        return m(*args)

    def run_pure(self, v, av, t):
        ex = self.ex
        s = self.st.copy()
        ex.quiet += 1
        try:
            rs = ex.apply(ex.curframe, s, v, av, {'args': [], 'sig': ex.T.ukey(t)}, {})
        finally:
            ex.quiet -= 1
        rs = [(s2, x) for s2, x in rs]
        if len(rs) != 1:
            raise SpecError('function value with several outcomes')
        return rs[0][1]

    # -- built-in functions

    def b_len(self, a):
        v, t = self.ev(a)
        if t == 'stream':
            return ext.st_len(v), 'int'
        return self.ex.length(self.st, v, t), 'int'

    def b_cap(self, a):
        return s_cap(self.ev(a)[0]), 'int'

    def b_ref(self, a):
        v, t = self.ev(a)
        if isinstance(v, VIface):
            return ext.ref_of(self.ex, v), 'int'
        return (s_ref(v) if v.sort() == SLICE else v), 'int'

    def b_off(self, a):
        return s_off(self.ev(a)[0]), 'int'

    def b_row(self, a):
        v, t = self.ev(a)
        et = self.ex.elem(t)
        return self.ex.sel(self.ex.reg(self.st, ('E', et, (), et)), s_ref(v)), 'row'

    def b_fresh(self, a):
        v, t = self.ev(a)
        r = s_ref(v) if v.sort() == SLICE else v
        return AND(r > self.old.alloc, r <= self.st.alloc), 'bool'

    def b_freshin(self, a):
        """allocated since the loop was entered"""
        v, t = self.ev(a)
        r = s_ref(v) if v.sort() == SLICE else v
        return AND(r > self.entry.alloc, r <= self.st.alloc), 'bool'

    def b_isnan(self, a):
        v, t = self.ev(a)
        return self.ex.fm.isnan(self.ex.fbits(t), v), 'bool'

    def b_isfinite(self, a):
        v, t = self.ev(a)
        return self.ex.fm.finite(v), 'bool'

    def b_integral(self, a):
        v, t = self.ev(a)
        return v == z3.fpRoundToIntegral(z3.RNE(), v), 'bool'

    def b_feq(self, a, b):
        x, y, t = self.unify(*self.ev(a), *self.ev(b))
        return self.ex.fm.cmp('==', self.ex.fbits(t), x, y), 'bool'

    def b_has(self, m, k):
        v, t = self.ev(m)
        return self.ex.maplookup(self.st, v, self.ev(k)[0], self.ex.T.ukey(t))[1], 'bool'

    def conv(self, a, to):
        v, t = self.ev(a)
        if t == 'untyped int':
            return (self.ex.fm.const(self.ex.fbits(to), v.as_long()) if self.kind(to) == 'float' else v), to
        if t == 'untyped float':
            return self.ex.fm.const(self.ex.fbits(to), v), to
        if self.kind(t) == 'int' and self.kind(to) == 'int':
            return v, to
        if self.kind(t) == 'int':
            return self.ex.fm.from_int(self.ex.fbits(to), v), to
        return self.ex.fm.conv(self.ex.fbits(t), self.ex.fbits(to), v), to

    def b_float32(self, a):
        return self.conv(a, 'float32')

    def b_float64(self, a):
        return self.conv(a, 'float64')

    def b_int(self, a):
        v, t = self.ev(a)
        return v, 'int'

    def b_uint8of(self, a):
        v, t = self.ev(a)
        return self.ex.fm_to_int(self.st, v, self.ex.fbits(t), 'uint8'), 'int'

    def b_rv(self, a):
        """the real value of a (finite) float"""
        v, t = self.ev(a)
        if t == 'untyped int':
            return z3.RealVal(v.as_long()), 'real'
        if t == 'untyped float':
            return z3.RealVal(str(v)), 'real'
        if t == 'int':
            return z3.ToReal(v), 'real'
        return self.ex.fm.V(v), 'real'

    def b_fl(self, a):
        v, t = self.ev(a)
        return self.ex.fm.mk(I(0), self.coerce(v, t, 'real')), 'float64'

    def realfn(self, n, *a):
        vs = []
        for x in a:
            v, t = self.ev(x)
            vs.append(self.coerce(v, t, 'real'))
        return z3.Function('r_' + n, *([smt.REAL] * (len(vs) + 1)))(*vs), 'real'

    # the elementary functions on the reals
    def b_rln(self, a):
        return self.realfn('log', a)

    def b_rpow(self, a, b):
        return self.realfn('pow', a, b)

    def b_rsin(self, a):
        return self.realfn('sin', a)

    def b_rcos(self, a):
        return self.realfn('cos', a)

    def b_near(self, a, b):
        """the two reals are the same expression up to rounding of the constants in it (see field.py)"""
        return z3.Function('near', smt.REAL, smt.REAL, z3.BoolSort())(*[self.coerce(*self.ev(x), 'real') for x in (a, b)]), 'bool'

    def b_rtan(self, a):
        return self.realfn('tan', a)

    def b_floor(self, a):
        v, t = self.ev(a)
        return z3.ToInt(self.coerce(v, t, 'real')), 'int'

    def b_abs(self, a):
        v, t = self.ev(a)
        if self.kind(t) == 'real':
            return z3.If(v >= 0, v, -v), t
        if not isinstance(v, z3.ExprRef):
            return abs(v), t
        return ite(z3.simplify(v >= 0), v, -v), t

    def b_min(self, a, b):
        x, y, t = self.unify(*self.ev(a), *self.ev(b))
        return z3.If(x <= y, x, y), t

    def b_max(self, a, b):
        x, y, t = self.unify(*self.ev(a), *self.ev(b))
        return z3.If(x >= y, x, y), t

    def b_wrap64(self, a):
        """two's complement wrap-around to 64 bits"""
        v, t = self.ev(a)
        return self.ex.norm_pure(v, 'int'), 'int'

    # streams and readers
    def b_stream(self, a):
        return ext.rd_stream(self.ev(a)[0]), 'stream'

    def b_pos(self, a):
        return ext.gget(self.ex, self.st, 'pos', self.ev(a)[0]), 'int'

    def b_content(self, a):
        v, t = self.ev(a)
        r = ext.ref_of(self.ex, v)
        return ext.content(r, ext.gget(self.ex, self.st, 'ver', r)), 'stream'

    def b_arr(self, S):
        return ext.st_arr(self.ev(S)[0]), 'row'

    def b_sbyte(self, S, i):
        return z3.Select(ext.st_arr(self.ev(S)[0]), self.ev(i)[0]), 'int'

    def b_sfind(self, S, p, d):
        return ext.sfind(self.ev(S)[0], self.ev(p)[0], self.ev(d)[0]), 'int'

    def b_sstr(self, S, p, n):
        return ext.sstr(self.ev(S)[0], self.ev(p)[0], self.ev(n)[0]), 'string'

    def b_bytes(self, a):
        """the bytes of a slice as a string"""
        return ext.bytes_to_string(self.ex, self.st, self.ev(a)[0]), 'string'

    def b_scan_ok(self, f, s):
        return ext.scan_ok(self.ev(f)[0], self.ev(s)[0]), 'bool'

    def b_scan_int(self, f, i, s):
        return ext.scan_int(self.ev(f)[0], self.ev(i)[0], self.ev(s)[0]), 'int'

    def b_scan_f32(self, f, i, s):
        return ext.scan_float(self.ex, 32)(self.ev(f)[0], self.ev(i)[0], self.ev(s)[0]), 'float32'

    def b_tparse_ok(self, f, s):
        return ext.tparse_ok(self.ev(f)[0], self.ev(s)[0]), 'bool'

    def b_tparse(self, f, s):
        return ext.tparse(self.ev(f)[0], self.ev(s)[0]), 'time.Time'

    def b_tadd(self, t, d):
        return ext.tadd(self.ev(t)[0], self.ev(d)[0]), 'time.Time'

    def b_inst(self, t):
        return ext.inst(self.ev(t)[0]), 'int'

    def b_isupper(self, a):
        r = self.ev(a)[0]
        return AND(r >= 65, r <= 90), 'bool'

    def b_bunzip2(self, S):
        return ext.bz(self.ev(S)[0]), 'stream'

    def b_tar_n(self, S):
        return ext.tar_n(self.ev(S)[0]), 'int'

    def b_tar_ok(self, S):
        return ext.tar_ok(self.ev(S)[0]), 'bool'

    def b_tar_entry(self, S, k):
        return ext.tar_entry(self.ev(S)[0], self.ev(k)[0]), 'stream'

    def b_tar_src(self, a):
        return ext.tar_src(self.ev(a)[0]), 'stream'

    def b_taridx(self, a):
        return ext.gget(self.ex, self.st, 'taridx', self.ev(a)[0]), 'int'

    # ghost attributes of an object, defined where it is created
    def b_src(self, a):
        """the bytes an object was read from"""
        return z3.Function('ghost_src', INT, STREAM)(self.ev(a)[0]), 'stream'

    def b_srcver(self, a):
        """the version of its reader an object was read from"""
        return z3.Function('ghost_srcver', INT, INT)(self.ev(a)[0]), 'int'

    def b_asread(self, e):
        """value of a field (or of an element of it) when the object was created"""
        return self.snapshot('asread', e)

    def b_ascalibrated(self, e):
        """value of a field when the calibration of the object ended"""
        return self.snapshot('ascalibrated', e)

    def snapshot(self, name, e):
        v, t = self.ev(e)
        ix = []
        while e[0] == 'idx':
            ix.insert(0, self.ev(e[2])[0])
            e = e[1]
        if e[0] != 'sel':
            raise SpecError('asread of something that is no field')
        a = [self.ev(e[1])[0]] + ix
        return z3.Function(name + '%d_%s' % (len(ix), e[2]), *([x.sort() for x in a] + [v.sort()]))(*a), t

    def b_ver(self, a):
        v, t = self.ev(a)
        return ext.gget(self.ex, self.st, 'ver', ext.ref_of(self.ex, v)), 'int'

    def b_tar_index(self, v):
        return ext.tar_verk(self.ev(v)[0]), 'int'

    def b_pix(self, img, x, y):
        r = self.ev(img)[0]
        m = ext.gget(self.ex, self.st, 'pix', r)
        x, y = self.ev(x)[0], self.ev(y)[0]
        return self.ex.sel(self.ex.sel(m, x), y) if not smt.has_var(m) else z3.Select(z3.Select(m, x), y), 'color'

    def b_width(self, a):
        return ext.img_w(self.ev(a)[0]), 'int'

    def b_height(self, a):
        return ext.img_h(self.ev(a)[0]), 'int'

    def b_color(self, a):
        v, t = self.ev(a)
        return ext.mkC(*v.vals), 'color'

    def b_rgba(self, *a):
        return ext.mkC(*[self.ev(x)[0] for x in a]), 'color'

    # -- modifies

    def mods(self, e):
        ex = self.ex
        if e[0] == 'call' and e[1] == ('id', 'pos'):
            return [Mod(('G', 'pos'), self.ev(e[2][0])[0])]
        if e[0] == 'call' and e[1] == ('id', 'ver'):
            return [Mod(('G', 'ver'), ext.ref_of(ex, self.ev(e[2][0])[0]))]
        if e[0] == 'call' and e[1] == ('id', 'pix'):
            return [Mod(('G', 'pix'), self.ev(e[2][0])[0])]
        if e[0] == 'sel':
            a, t = self.ev(e[1])
            s = ex.T.norm(ex.T.u(t)['e'])
            for i, (n, ft) in enumerate(ex.fields(s)):
                if n == e[2]:
                    return [Mod(('F', s, (i,) + p, lt), a) for p, lt in ex.leaves(ft)]
            raise SpecError('no field ' + e[2])
        if e[0] == 'all':
            if e[1][0] == 'all':
                # rows of a slice of slices
                a, t = self.ev(e[1][1])
                et = ex.elem(t)
                et2 = ex.elem(et)
                st = self.st

                def pred(r, a=a, et=et, st=st):
                    j = z3.Int(smt.freshname('y'))
                    hd = ex.rd_leaf(st, ('E', et, (), et), s_ref(a), j)
                    return NOT(FA([j], IMP(AND(j >= s_off(a), j < s_off(a) + s_len(a)), s_ref(hd) != r), patterns=[hd]))
                return [Mod(('E', et2, p, lt), None, pred=pred) for p, lt in ex.leaves(et2)]
            a, t = self.ev(e[1])
            et = ex.elem(t)
            return [Mod(('E', et, p, lt), s_ref(a), s_off(a), ex.addn(s_off(a), s_len(a))) for p, lt in ex.leaves(et)]
        raise SpecError('bad modifies clause')


def pterms_subs(pterms):
    out = []
    for k in sorted(pterms, reverse=True):
        out += pterms[k]
    return out


def subst_all(t, subs):
    for s in subs:
        t = z3.substitute(t, *s)
    return t


def vars_of(t, vs):
    ids = {v.get_id() for v in vs}
    out, seen, w = set(), set(), [t]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            out.add(x.get_id())
        if z3.is_quantifier(x):
            w.append(x.body())
        else:
            w.extend(x.children())
    return out


def linear(idx, v):
    """idx == coef*v + rest with coef 1 or -1, or None"""
    coef, rest = 0, []

    def go(t, s):
        nonlocal coef
        if t.eq(v):
            coef += s
            return True
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            return all(go(c, s) for c in t.children())
        if k == z3.Z3_OP_SUB and t.num_args() == 2:
            return go(t.arg(0), s) and go(t.arg(1), -s)
        if k == z3.Z3_OP_UMINUS:
            return go(t.arg(0), -s)
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and abs(t.arg(0).as_long()) == 1:
            return go(t.arg(1), s * t.arg(0).as_long())
        if vars_of(t, [v]):
            return False
        rest.append(t if s == 1 else -t)
        return True
    if not go(idx, 1) or coef not in (1, -1):
        return None
    r = I(0) if not rest else rest[0] if len(rest) == 1 else z3.Sum(rest)
    return coef, r


def accesses(body, consts):
    """possible triggers: (term, index argument, coef, rest) per variable"""
    out = []
    seen = set()
    w = [body]
    order = []
    while w:
        x = w.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        order.append(x)
        w.extend(x.children())
    for x in order:
        if not z3.is_app(x) or x.num_args() == 0:
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_SELECT:
            cand = [x.arg(1)]
        elif k == z3.Z3_OP_UNINTERPRETED:
            cand = x.children()
        else:
            continue
        vs = vars_of(x, consts)
        if not vs:
            continue
        if has_interp(x, consts):
            # an index with interpreted arithmetic over several variables: handled per variable
            pass
        for vi, v in enumerate(consts):
            if v.get_id() not in vs:
                continue
            for a in cand:
                if v.sort() != INT:
                    if a.eq(v):
                        out.append((vi, (x, a, 1, None), vs))
                    continue
                if a.sort() != INT:
                    continue
                l = linear(a, v)
                if l is not None:
                    out.append((vi, (x, a, l[0], l[1]), vs))
    return out


def has_interp(x, consts):
    return False


def choose(accs, consts):
    """assignments variable -> access that together cover all variables"""
    per = {}
    for vi, a, vs in accs:
        per.setdefault(vi, [])
        if not any(a[0].eq(b[0]) and a[1].eq(b[1]) for b, _ in per[vi]):
            per[vi].append((a, vs))
    n = len(consts)
    if any(i not in per for i in range(n)):
        return []
    if n == 1:
        # prefer memory accesses
        per[0].sort(key=lambda p: (p[0][0].decl().kind() != z3.Z3_OP_SELECT))
        return [{0: fix(a)} for a, vs in per[0]]
    outs = []
    # accesses of the last variable that mention all variables
    last = n - 1
    allv = {c.get_id() for c in consts}
    cl = sorted(per[last], key=lambda p: -len(p[1]))
    for a, vs in cl[:2]:
        d = {last: fix(a)}
        for i in range(n - 1):
            # prefer an access inside the chosen term
            inside = [b for b, bv in per[i] if contains(a[0], b[0]) and len(bv) < len(allv)] or [b for b, bv in per[i] if len(bv) == 1] or [b for b, bv in per[i]]
            d[i] = fix(inside[0])
        outs.append(d)
    return outs[:2]


def fix(a):
    return a if a[3] is not None else (a[0], a[1], None, None)


def contains(t, s):
    w, seen = [t], set()
    while w:
        x = w.pop()
        if x.eq(s):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        w.extend(x.children())
    return False
