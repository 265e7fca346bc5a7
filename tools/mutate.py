#!/usr/bin/env python3-vt
"""developer tool: single-site mutants of /repo that pass the stable tests, against the proofs alone.

  mutate.py base                     times and dependencies of every contract on the clean tree -> /tmp/mut/base.json
  mutate.py run MUTANTS.json [N]     MUTANTS.json from tools/mutate; results -> /tmp/mut/results.jsonl (resumes)
  mutate.py show                     the survivors"""
import json, os, sys, subprocess, shutil, tempfile, time, threading, queue
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'govc'))
sys.setrecursionlimit(20000)
import check
from worker import load
D = '/tmp/mut'
os.makedirs(D, exist_ok=True)


def contracts(ssa):
    prog, specs = load(ssa)
    out = []
    for ct in specs.order:
        fn = prog.fns.get(ct.name)
        if not ct.lemma and (fn is None or not specs.matches(fn, ct)):
            continue
        out.append(ct.name)
    return out


def base():
    w = tempfile.mkdtemp(dir=D)
    ssa = check.dump('/repo', w)
    r = check.prove(ssa, contracts(ssa), dict(props=None, ms=4000, maxfail=3, until=time.time() + 700, confirm=False), 8, open(w + '/log', 'w'), time.time() + 900)
    json.dump({n: dict(time=a['time'], inlined=a['inlined'], contracts=a['contracts']) for n, a in r.items()}, open(D + '/base.json', 'w'), indent=1)
    shutil.rmtree(w)


FILES = {'conversion.go': ['zr_', 'AtZ', 'rvp6Runlength'], 'catalog.go': ['parseHeader'], 'header.go': ['parseHeader'], 'data.go': ['parseData'], 'projection.go': ['calibrateProjection', 'grid_', 'half_'],
         'projection_sphere.go': ['grid_'], 'projection_wgs84.go': ['grid_', 'wgs84'], 'radolan.go': ['NewComposite'], 'radolan2png/vis/vis.go': ['Nothing']}


def deps(m, b):
    f = m['func']
    short = lambda n: n.split('.')[-1].split('$')[0]
    if f == 'init':
        ks = FILES.get(m['file'], [])
        l = [n for n in b if any(short(n).startswith(k) for k in ks)]
    else:
        l = [n for n in b if short(n) == f or f in [short(i) for i in b[n]['inlined']]]
    return sorted(l, key=lambda n: b[n]['time'])


def one(m, b, gp):
    t0 = time.time()
    root = gp + '/src/gitlab.cs.fau.de/since/radolan'
    subprocess.run(['git', '-C', root, 'checkout', '-q', '--', '.'], check=True)
    p = os.path.join(root, m['file'])
    s = open(p, 'rb').read()
    open(p, 'wb').write(s[:m['start']] + m['text'].encode() + s[m['end']:])
    env = check.goenv(GO111MODULE='off', GOPATH=gp, GOCACHE='/tmp/mut/gocache')
    r = subprocess.run(['go', 'build', './...'], cwd=root, env=env, capture_output=True)
    if r.returncode:
        return dict(res='nocompile')
    try:
        r = subprocess.run(['go', 'test', '-vet=off', '-skip', 'TestGrid', '.'], cwd=root, env=env, capture_output=True, timeout=60)
        if r.returncode:
            return dict(res='tests')
    except subprocess.TimeoutExpired:
        return dict(res='tests')
    todo = deps(m, b)
    if not todo:
        return dict(res='nodeps')
    try:
        ssa = check.dump(root, gp)
    except check.SystemExit2 as e:
        return dict(res='nodump', err=str(e)[:300])
    w = check.Worker(ssa, queue.Queue(), {}, dict(props=None, ms=4000, maxfail=1, until=time.time() + 400, confirm=False), open(gp + '/log', 'w'))
    try:
        for n in todo:
            w.tasks.put(n)
            w.run1 = None
            if w.proc is None and not w.start_proc():
                return dict(res='noworker')
            w.proc.stdin.write(json.dumps(dict(w.q, fn=n)) + '\n')
            w.proc.stdin.flush()
            l = w.proc.stdout.readline()
            if not l:
                return dict(res='caught', by=n, what='crash')
            a = json.loads(l)
            if a.get('crashed'):
                return dict(res='caught', by=n, what='error ' + str(a['error'])[:200])
            for o in a['obs']:
                if o['status'] != 'proved':
                    return dict(res='caught', by=n, what=o['kind'] + ' ' + o['name'][:120], props=o['props'], status=o['status'], t=time.time() - t0)
        return dict(res='SURVIVED', t=time.time() - t0, checked=todo)
    finally:
        w.kill()


def run(path, n):
    b = json.load(open(D + '/base.json'))
    done = set()
    if os.path.exists(D + '/results.jsonl'):
        for l in open(D + '/results.jsonl'):
            d = json.loads(l)
            done.add((d['m']['file'], d['m']['start'], d['m']['end'], d['m']['text']))
    ms = [json.loads(l) for l in open(path)]
    ms = [m for m in ms if (m['file'], m['start'], m['end'], m['text']) not in done]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    out = open(D + '/results.jsonl', 'a')

    def go():
        gp = tempfile.mkdtemp(dir=D)
        root = gp + '/src/gitlab.cs.fau.de/since/radolan'
        os.makedirs(os.path.dirname(root))
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            try:
                r = one(m, b, gp)
            except Exception as e:
                r = dict(res='toolerror', err=repr(e)[:300])
            with lock:
                out.write(json.dumps(dict(m=m, **r)) + '\n')
                out.flush()
        shutil.rmtree(gp)
    ts = [threading.Thread(target=go) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def show():
    import collections
    c = collections.Counter()
    for l in open(D + '/results.jsonl'):
        d = json.loads(l)
        c[d['res']] += 1
        if d['res'] not in ('caught', 'tests', 'nocompile'):
            m = d['m']
            print(d['res'], '%s:%d %s %s' % (m['file'], m['line'], m['func'], m['what'][:100]), d.get('err', ''))
    print(dict(c))


if sys.argv[1] == 'base':
    base()
elif sys.argv[1] == 'run':
    run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 8)
else:
    show()
