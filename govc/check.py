#!/usr/bin/env python3-vt
"""Decides one property for the current working tree of /repo.

  check.py PROPERTY [--tier quick|thorough] [--repo DIR]

1. translates the packages in /repo to SSA (ssadump) - every run, from the files as they are;
2. generates and discharges the proof obligations of every function under contract that bears
   on the property, in parallel worker processes;
3. replays: runs the compiled code of the same tree against an independent oracle, to turn a
   failed obligation into a concrete failing input (and to cross-check the trusted base).

exit 0: every obligation discharged, no failing input; exit 1 and a VIOLATION line otherwise;
exit 2: the check itself could not run (for example the tree does not compile)."""
import argparse
import hashlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
BUILD = os.path.join(ROOT, 'build')
PKG = 'gitlab.cs.fau.de/since/radolan'
LEVEL = 'proof'
import trusted  # noqa: E402


def goenv(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('GO') and k not in ('GOROOT',):
            del e[k]
    e.update(HOME=e.get('HOME', '/root'), GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOENV='off', GOWORK='off', CGO_ENABLED='0', TZ='Europe/Berlin',
             GOCACHE=os.path.join(BUILD, 'gocache'))
    e.update(kw)
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()


def build_ssadump():
    """builds the translator unless this very source was built before"""
    src = os.path.join(HERE, 'ssadump')
    files = [os.path.join(src, f) for f in os.listdir(src)]
    out = os.path.join(BUILD, 'ssadump-' + digest(files)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    p = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=goenv(GOFLAGS='-mod=mod'), capture_output=True, text=True)
    if p.returncode:
        raise SystemExit2('cannot build ssadump: ' + p.stderr[-2000:])
    os.rename(tmp, out)
    return out


class SystemExit2(Exception):
    pass


def dump(repo, work):
    tool = build_ssadump()
    out = os.path.join(work, 'ssa.json')
    with open(out, 'w') as f:
        p = subprocess.run([tool, '-root', repo, '-inline', 'encoding/binary', '-skipinit', PKG + '/radolan2png'], env=goenv(GO111MODULE='off'),
                           stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise SystemExit2('the tree cannot be translated (does it compile?): ' + p.stderr[-2000:])
    return out


# ------------------------------------------------------------------ proof

class Worker(threading.Thread):
    def __init__(self, ssa, tasks, results, q, log):
        super().__init__(daemon=True)
        self.ssa, self.tasks, self.results, self.q, self.log = ssa, tasks, results, q, log
        self.proc = None
        self.stop = False

    def start_proc(self):
        self.proc = subprocess.Popen(['python3-vt', os.path.join(HERE, 'worker.py'), self.ssa], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.log, text=True, start_new_session=True)
        return self.proc.stdout.readline() != ''

    def run(self):
        while not self.stop:
            try:
                name = self.tasks.get_nowait()
            except queue.Empty:
                break
            a = None
            for attempt in range(2):
                if self.proc is None and not self.start_proc():
                    self.kill()
                    continue
                try:
                    self.proc.stdin.write(json.dumps(dict(self.q, fn=name)) + '\n')
                    self.proc.stdin.flush()
                    line = self.proc.stdout.readline()
                except OSError:
                    line = ''
                if line:
                    a = json.loads(line)
                    break
                self.kill()
                if self.stop:
                    break
            if a is None:
                a = dict(fn=name, obs=[], notes=[], error='the verifier process ended', contracts=[], ext=[], inlined=[], time=0, crashed=True)
            self.results[name] = a
        self.kill()

    def kill(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None


def prove(ssa, names, q, jobs, log, deadline):
    tasks, results = queue.Queue(), {}
    for n in names:
        tasks.put(n)
    ws = [Worker(ssa, tasks, results, q, log) for _ in range(min(jobs, len(names)))]
    for w in ws:
        w.start()
    for w in ws:
        w.join(max(0.1, deadline - time.time()))
    for w in ws:
        if w.is_alive():
            w.stop = True
            w.kill()
    for w in ws:
        w.join(5)
    for n in names:
        results.setdefault(n, dict(fn=n, obs=[], notes=[], error='time budget used up', contracts=[], ext=[], inlined=[], time=0, crashed=True))
    return results


def failures(results, prop):
    out = []
    for n, a in results.items():
        if a.get('crashed'):
            out.append(dict(fn=n, kind='unsupported', name='function could not be verified: %s' % a['error'], status='unknown', pos='', detail=a['error'] or '', model=''))
        for o in a['obs']:
            if o['status'] != 'proved' and prop in o['props']:
                out.append(dict(o, fn=n))
    return out


# ------------------------------------------------------------------ main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--evidence', default=os.path.join(ROOT, 'evidence'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    try:
        return run(a, seed, work)
    except SystemExit2 as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, seed, work):
    t0 = time.time()
    prop = a.property
    thorough = a.tier == 'thorough'
    budget = 3000 if thorough else 620
    ssa = dump(a.repo, work)
    from worker import load
    prog, specs = load(ssa)
    tasks, missing, gone = [], [], []
    for ct in specs.order:
        rel = prop in ct.reach
        if not ct.lemma:
            fn = prog.fns.get(ct.name)
            if fn is None or not specs.matches(fn, ct):
                if rel:
                    (gone if ct.public else missing).append(ct.name)
                continue
        if rel:
            tasks.append(ct.name)
    size = lambda n: sum(len(b['i']) for b in prog.fns[n].blocks) if n in prog.fns else 50
    tasks.sort(key=size, reverse=True)

    import replay
    rep = None if a.no_replay else replay.Replay(ROOT, BUILD, work, a.repo, prop, seed, a.tier, prog, goenv)
    if rep:
        rep.start()
    log = open(os.path.join(work, 'workers.log'), 'w')
    ms = 15000 if thorough else 4000
    q = dict(props=[prop], ms=ms, maxfail=None if thorough else 3, until=t0 + budget * 0.6, confirm=thorough)
    results = prove(ssa, tasks, q, a.jobs, log, t0 + budget * 0.7)
    failed = failures(results, prop)
    if rep:
        rep.wait(max(60, t0 + budget - time.time()))
    if failed and not (rep and rep.failing) and t0 + budget - time.time() > 60:
        # once more with longer limits: a busy machine must not raise an alarm
        again = sorted({f['fn'] for f in failed})
        left = t0 + budget - time.time()
        r2 = prove(ssa, again, dict(q, ms=ms * 4, maxfail=1, until=time.time() + left * 0.8, confirm=False), max(1, min(a.jobs, 4)), log, t0 + budget)
        for n, x in r2.items():
            if not failures({n: x}, prop) or not failures({n: results[n]}, prop):
                results[n] = x
        failed = failures(results, prop)
        if failed and rep and not rep.failing:
            rep.deepen(max(30, t0 + budget + 60 - time.time()))
    for n in gone:
        failed.append(dict(fn=n, kind='missing', name='public function %s with its documented signature' % n.split('/')[-1], status='missing', pos='', detail='', model=''))

    # ---------------------------------------------------------------- evidence
    obs = [dict(o, fn=n) for n, x in results.items() for o in x['obs'] if prop in o['props'] and o['kind'] != 'vacuity']
    vac = [dict(o, fn=n) for n, x in results.items() for o in x['obs'] if prop in o['props'] and o['kind'] == 'vacuity']
    if not obs and not failed:
        failed.append(dict(fn='', kind='none', name='no obligation of the property could be generated', status='missing', pos='', detail='', model=''))
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o['solver']] = by.get(o['solver'], 0) + 1
    kinds = {}
    for o in obs:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    fns = sorted(n.split('/')[-1] for n, x in results.items() if any(o['fn'] == n for o in obs))
    ext = sorted({e for x in results.values() for e in x['ext']})
    inl = sorted({e.split('/')[-1] for x in results.values() for e in x['inlined']})
    assumed = ['%s: %s' % (c.short, e.text.strip().replace('\n', ' ')) for c in specs.order for e in c.assumed if c.name in results]
    cov = dict(
        obligations=len(obs) + len([f for f in failed if f['kind'] in ('missing', 'none', 'unsupported') and f.get('status') in ('missing', 'unknown') and 'props' not in f]),
        discharged=len([o for o in obs if o['status'] == 'proved']),
        checker_cmd='python3-vt govc/check.py %s --tier %s' % (prop, a.tier),
        trusted_base=trusted.base(ext),
        functions_under_contract=fns, functions_inlined=inl, contracts_relied_on=sorted({c.split('/')[-1] for x in results.values() for c in x['contracts']}),
        contracts_without_function=sorted(m.split('/')[-1] for m in missing),
        obligations_by_kind=kinds, discharged_by=by, solver_time_s=round(sum(o['time'] for o in obs), 2),
        consistency_checks=dict(total=len(vac), satisfiable_or_unknown=len([o for o in vac if o['status'] == 'proved'])),
        obligation_list=[dict(fn=o['fn'].split('/')[-1], kind=o['kind'], name=o['name'][:160], pos=o['pos'].split('/')[-1], by=o['solver'], s=o['time'], status=o['status'])
                         for o in obs if o['kind'] in ('ensures', 'closure', 'lemma', 'frame') or o['status'] != 'proved'][:400],
        replay=rep.summary() if rep else dict(run=False),
        bounded=trusted.bounded(prop),
    )
    nviol = 0
    lines = []
    if rep and rep.failing:
        f = rep.failing[0]
        path = write_replay(prop, dict(property=prop, failing_input=f, failed_obligations=failed[:20], rerun=rep.rerun_cmd()))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  failing input: %s' % json.dumps(f)[:1500])
        nviol += len(rep.failing)
    elif failed:
        path = write_replay(prop, dict(property=prop, failing_input=None, failed_obligations=failed[:20], searched=rep.summary() if rep else {}))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        nviol += len(failed)
    for f in failed[:8]:
        print('  failed obligation: %s: %s: %s (%s) %s' % (f['fn'].split('/')[-1], f['kind'], f['name'], f['status'], f['pos'].split('/')[-1]))
    for k in trusted.known(ROOT, prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = dict(property=prop, tier=a.tier, seed=seed, level=LEVEL, coverage=cov, assumptions=trusted.assumptions(prop) + assumed,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(a.evidence, exist_ok=True)
    with open(os.path.join(a.evidence, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d functions, replay %s, %.0f s' % (prop, cov['discharged'], cov['obligations'], len(fns), rep.short() if rep else 'off', time.time() - t0))
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def write_replay(prop, d):
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    path = os.path.join(BUILD, 'replay', '%s-%d.json' % (prop, int(time.time())))
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return path


if __name__ == '__main__':
    sys.exit(main())
