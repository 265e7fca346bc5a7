#!/usr/bin/env python3-vt
"""developer tool: every obligation of every contract, once, for a tree: allproofs.py DIR"""
import os, sys, tempfile, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'govc'))
import check
from worker import load


def main():
    t0 = time.time()
    work = tempfile.mkdtemp()
    try:
        ssa = check.dump(sys.argv[1], work)
        prog, specs = load(ssa)
        tasks = []
        for ct in specs.order:
            fn = prog.fns.get(ct.name)
            if not ct.lemma and (fn is None or not specs.matches(fn, ct)):
                print('  without function: %s%s' % (ct.name.split('/')[-1], ' PUBLIC' if ct.public else ''))
                continue
            tasks.append(ct.name)
        log = open(os.path.join(work, 'log'), 'w')
        q = dict(props=None, ms=4000, maxfail=3, until=t0 + 700, confirm=False)
        r = check.prove(ssa, tasks, q, 8, log, t0 + 900)
        bad = sorted({n for n, a in r.items() if a.get('crashed') or any(o['status'] != 'proved' for o in a['obs'])})
        if bad:
            r2 = check.prove(ssa, bad, dict(q, ms=16000, maxfail=3, until=time.time() + 500), 4, log, time.time() + 600)
            r.update(r2)
        n = 0
        for fn, a in sorted(r.items()):
            if a.get('crashed'):
                print('  CRASH', fn, a['error'])
            for o in a['obs']:
                if o['status'] not in ('proved',):
                    n += 1
                    if o['status'] != 'skipped': print('  FAIL %s %s: %s %s (%s) %s' % (fn.split('/')[-1], o['kind'], ','.join(sorted(o['props'])), o['name'][:110], o['status'], o['pos'].split('/')[-1]))
        print('%d obligations, %d failing, %.0f s' % (sum(len(a['obs']) for a in r.values()), n, time.time() - t0))
    finally:
        shutil.rmtree(work)


main()
