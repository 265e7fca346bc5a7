"""Program representation: the SSA dump of the real sources (see ../ssadump)."""
import json


class Types:
    def __init__(self, tab):
        self.tab = tab
        self._u = {}

    def u(self, t):
        """descriptor of the underlying type"""
        r = self._u.get(t)
        if r is None:
            d = self.tab[t]
            while d['k'] in ('named', 'alias'):
                d = self.tab[d['u']]
            self._u[t] = r = d
        return r

    def ukey(self, t):
        d = self.tab[t]
        while d['k'] in ('named', 'alias'):
            t = d['u']
            d = self.tab[t]
        return t

    def norm(self, t):
        """canonical key for memory regions: aliases resolved"""
        d = self.tab[t]
        while d['k'] == 'alias':
            t = d['u']
            d = self.tab[t]
        if d['k'] == 'basic':
            return {'byte': 'uint8', 'rune': 'int32'}.get(d['name'], t)
        return t

    def kind(self, t):
        return self.u(t)['k']


class Fn:
    def __init__(self, d, types):
        self.d = d
        self.name = d['name']
        self.pkg = d.get('pkg', '')
        self.params = d['params']
        self.freevars = d['freevars']
        self.results = d['results']
        self.blocks = d.get('blocks') or []
        self.external = not self.blocks
        self.types = types
        self._an = False

    def analyse(self):
        if self._an:
            return self
        self._an = True
        n = len(self.blocks)
        succ = [b['succ'] for b in self.blocks]
        # reverse postorder
        seen, post = set(), []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        pred = [[p for p in b['pred'] if p in pos] for b in self.blocks]
        # dominators
        dom = {b: set(self.rpo) for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(pred[x])
                elif pos[s] <= pos[b]:
                    raise Unsupported('irreducible control flow in ' + self.name)
        # liveness of registers at block entry (before phis of that block)
        use, deff, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [dict() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            for ins in b['i']:
                if ins['op'] == 'Phi':
                    for p, e in zip(b['pred'], ins['edges']):
                        if e and e['v'] == 'reg':
                            phiuse[p].setdefault(bi, set()).add(e['n'])
                    deff[bi].add(ins['r'])
                    continue
                for x in operands(ins):
                    if x['v'] == 'reg' and x['n'] not in deff[bi]:
                        use[bi].add(x['n'])
                if 'r' in ins:
                    deff[bi].add(ins['r'])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in succ[b]:
                    out |= livein[s] | phiuse[b].get(s, set())
                ni = use[b] | (out - deff[b])
                if ni != livein[b]:
                    livein[b] = ni
                    ch = True
        self.livein = livein
        return self


class Unsupported(Exception):
    pass


def operands(ins):
    out = []

    def add(x):
        if isinstance(x, dict) and 'v' in x:
            out.append(x)
    for k, v in ins.items():
        if k == 'call':
            for a in v['args']:
                add(a)
            add(v.get('fn'))
            add(v.get('recv'))
        elif isinstance(v, list):
            for e in v:
                add(e)
        else:
            add(v)
    return out


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = Types(d['types'])
        self.fns = {}
        for f in d['funcs']:
            self.fns[f['name']] = Fn(f, self.types)
        self.globals = {g[0]: g[1] for g in d['globals']}
        self.local = d['local']
        self.consts = {c[0]: c[1:] for c in d['consts']}
        self._scan()

    def is_local(self, pkg):
        return pkg in self.local

    def _scan(self):
        """whole-program facts used by the executor:
        - struct types that are handled through pointers (kept in the symbolic heap)
        - package variables and struct fields that are stored to outside initialisers"""
        T = self.types
        self.heap_structs = set()

        def ptr_to_struct(t):
            d = T.tab[t]
            while d['k'] == 'alias':
                d = T.tab[d['u']]
            if d['k'] == 'ptr' and T.kind(d['e']) == 'struct':
                return T.norm(d['e'])
            return None
        for f in self.fns.values():
            if f.d.get('synthetic') or not self.is_local(f.pkg):
                continue
            for _, t in list(f.params) + list(f.results):
                s = ptr_to_struct(t)
                if s:
                    self.heap_structs.add(s)
        for t, d in T.tab.items():
            if not d:
                continue
            for e in ([x[1] for x in d['f'] or []] if d['k'] == 'struct' else [d['e']] if d['k'] in ('slice', 'map', 'array') else []):
                s = ptr_to_struct(e)
                if s and any(s.startswith(p + '.') for p in self.local):
                    self.heap_structs.add(s)
        for g, t in self.globals.items():
            s = ptr_to_struct(T.tab[t]['e'])
            if s:
                self.heap_structs.add(s)

        # package variables written outside initialisers (directly, or whose address is used
        # other than for loading or addressing parts that are loaded)
        self.mutable_globals = set()
        for f in self.fns.values():
            if f.external or not self.is_local(f.pkg):
                continue
            if f.name.endswith('.init') or '.init#' in f.name or (f.d.get('parent') or '').endswith('.init'):
                continue
            addr = {}           # register -> global it points into
            for b in f.blocks:
                for ins in b['i']:
                    op = ins['op']
                    if op in ('FieldAddr', 'IndexAddr'):
                        x = ins['x']
                        if x['v'] == 'global':
                            addr[ins['r']] = x['n']
                        elif x['v'] == 'reg' and x['n'] in addr:
                            addr[ins['r']] = addr[x['n']]
            for b in f.blocks:
                for ins in b['i']:
                    op = ins['op']
                    ops = operands(ins)
                    for x in ops:
                        g = x['n'] if x['v'] == 'global' else addr.get(x['n']) if x['v'] == 'reg' else None
                        if g is None:
                            continue
                        if op == 'UnOp' or (op in ('FieldAddr', 'IndexAddr') and ins['x'] is x) or op == 'DebugRef':
                            continue
                        self.mutable_globals.add(g)
