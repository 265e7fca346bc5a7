"""Builds the tree under test together with the harness and looks for concrete failing inputs."""
import json
import os
import re
import resource
import shutil
import subprocess
import threading
import time

PKG = 'gitlab.cs.fau.de/since/radolan'
HOOKED = {  # unexported functions the harness can call directly, with the signature it expects
    'splitHeader': ([('string')], ['map[string]string']),
    'toDBZ': (['float32'], ['float32']),
    'toRVP6': (['float32'], ['float32']),
}


class Replay:
    def __init__(self, root, build, work, repo, prop, seed, tier, prog, goenv):
        self.root, self.build, self.work, self.repo, self.prop, self.seed, self.tier = root, build, work, repo, prop, seed, tier
        self.prog, self.goenv = prog, goenv
        self.failing = []
        self.reports = []
        self.error = ''
        self.thread = None

    # ------------------------------------------------------------ build

    def hooks(self, pkg, dst):
        """gives the harness access to package state and some unexported functions of the copy"""
        name = 'radolan' if pkg == PKG else pkg.split('/')[-1]
        vs = sorted({g.split('.')[-1] for g in self.prog.globals if g.rsplit('.', 1)[0] == pkg and '$' not in g})
        vs = [v for v in vs if re.fullmatch(r'\w+', v) and v != '_']
        s = 'package %s\n\nvar VerifGlobals = map[string]interface{}{\n' % name
        s += ''.join('\t"%s": &%s,\n' % (v, v) for v in vs) + '}\n'
        if pkg == PKG:
            s += '\nvar VerifHooks = map[string]interface{}{\n'
            for f, (ps, rs) in HOOKED.items():
                fn = self.prog.fns.get(pkg + '.' + f)
                if fn is not None and [t for _, t in fn.params] == ps and [t for _, t in fn.results] == rs:
                    s += '\t"%s": %s,\n' % (f, f)
            s += '}\n'
        with open(os.path.join(dst, 'zz_verif_hooks.go'), 'w') as f:
            f.write(s)

    def compile(self):
        gp = os.path.join(self.work, 'gopath')
        src = os.path.join(gp, 'src', PKG)
        for sub in ('', 'radolan2png/vis'):
            os.makedirs(os.path.join(src, sub), exist_ok=True)
        for d, ds, fs in os.walk(self.repo):
            ds[:] = [x for x in ds if x not in ('.git', 'testdata')]
            rel = os.path.relpath(d, self.repo)
            if rel != '.' and not os.path.exists(os.path.join(src, rel)):
                os.makedirs(os.path.join(src, rel))
            for f in fs:
                if f.endswith('.go') and not f.endswith('_test.go'):
                    shutil.copy(os.path.join(d, f), os.path.join(src, rel, f))
        self.hooks(PKG, src)
        self.hooks(PKG + '/radolan2png/vis', os.path.join(src, 'radolan2png/vis'))
        h = os.path.join(gp, 'src', 'vharness')
        shutil.copytree(os.path.join(self.root, 'harness'), h)
        self.bin = os.path.join(self.work, 'vharness')
        p = subprocess.run(['go', 'build', '-o', self.bin, '.'], cwd=h, env=self.goenv(GO111MODULE='off', GOPATH=gp, GOFLAGS='-buildvcs=false'),
                           capture_output=True, text=True)
        if p.returncode:
            self.error = 'harness does not build against this tree: ' + p.stderr[-1500:]
            return False
        return True

    # ------------------------------------------------------------ runs

    def execute(self, seed, ms, tag):
        out, case = os.path.join(self.work, 'rep-%s.json' % tag), os.path.join(self.work, 'case-%s' % tag)

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        cmd = [self.bin, '-prop', self.prop, '-seed', str(seed), '-ms', str(ms), '-out', out, '-case', case]
        try:
            p = subprocess.run(cmd, env=self.goenv(GOTRACEBACK='single'), capture_output=True, text=True, errors='replace', timeout=ms / 1000 + 90, preexec_fn=limit, cwd=self.work)
            rc, txt = p.returncode, (p.stdout + p.stderr)
        except subprocess.TimeoutExpired:
            rc, txt = 7, 'HANG'
        rep = None
        if os.path.exists(out):
            rep = json.load(open(out))
            self.reports.append(rep)
            self.failing += [dict(f, seed=seed) for f in rep['failing']]
        if rc == 3:
            self.error = 'no harness for the property'
        elif rc == 4:
            self.error = 'harness error: ' + txt[-1500:]
        elif rc != 0 or rep is None or not rep.get('done'):
            # the process died: the recorded case is the failing one
            kind = 'does not terminate within 20 s' if rc == 7 else 'the process dies: ' + ' | '.join(ln for ln in txt.splitlines() if ln.strip())[:400]
            inp, hexs = '', ''
            try:
                b = open(case, 'rb').read()
                n, m = int(b[0:8]), int(b[9:17])
                inp, hexs = b[18:18 + n].decode('utf8', 'replace'), b[18 + n:18 + n + m].hex()
            except (OSError, ValueError):
                pass
            self.failing.append(dict(what='crash', input=inp, stream_hex=hexs, want='a result or an error', got=kind, seed=seed))

    def start(self):
        self.thread = threading.Thread(target=self.first, daemon=True)
        self.thread.start()

    def first(self):
        try:
            if self.compile():
                self.execute(self.seed, 120000 if self.tier == 'thorough' else 12000, 'a')
        except Exception as e:  # noqa: BLE001 - reported in the evidence
            self.error = 'harness: %s: %s' % (type(e).__name__, e)

    def wait(self, t):
        self.thread.join(t)

    def deepen(self, t):
        """a proof failed and no input is known yet: search longer, with other seeds, in parallel"""
        if self.error or self.thread.is_alive():
            return
        ms = int(min(t * 0.6, 60) * 1000)
        ts = [threading.Thread(target=self.execute, args=(self.seed * 1000 + i, ms, 'd%d' % i), daemon=True) for i in range(4)]
        for x in ts:
            x.start()
        for x in ts:
            x.join(ms / 1000 + 100)

    # ------------------------------------------------------------ reporting

    def summary(self):
        return dict(run=bool(self.reports), error=self.error, evaluations=sum(r['evaluations'] for r in self.reports),
                    distinct_inputs=sum(r['distinct'] for r in self.reports), seeds=[r['seed'] for r in self.reports],
                    samples=[s for r in self.reports for s in r['samples']][:3], failing=len(self.failing),
                    role='cross-check of the trusted base and search for a failing input; not counted as proof')

    def short(self):
        if self.error:
            return 'not run (%s)' % self.error.strip()[:300]
        s = self.summary()
        return '%d cases%s' % (s['evaluations'], ', %d FAILING' % len(self.failing) if self.failing else '')

    def rerun_cmd(self):
        return 'VERIF_SEED=%d python3-vt govc/check.py %s' % (self.seed, self.prop)
