#!/usr/bin/env python3-vt
"""Verification worker: reads one JSON request per line (function, properties, limits), verifies
that function against its contract and answers with one JSON line."""
import glob
import json
import os
import resource
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc.ir import Program
from vc.spec import Specs
from vc.verify import Session, verify

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_INIT = ('gitlab.cs.fau.de/since/radolan/radolan2png',)


def load(ssa):
    prog = Program(ssa)
    specs = Specs(prog)
    for f in sorted(glob.glob(ROOT + '/contracts/**/*.go', recursive=True)):
        specs.load(f)
    return prog, specs


def answer(o):
    return dict(kind=o.kind, name=o.name.replace('\n', ' '), props=sorted(o.props), pos=str(o.pos), status=o.status,
                solver=o.solver, time=round(o.time, 3), detail=str(o.detail)[:3000], model=(str(o.model)[:4000] if o.model else ''))


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    prog, specs = load(sys.argv[1])
    sessions = {}
    byname = {c.name: c for c in specs.order}
    print(json.dumps(dict(ready=True)), file=out, flush=True)
    for line in sys.stdin:
        q = json.loads(line)
        ct = byname[q['fn']]
        t0 = time.time()
        try:
            if ct.floats not in sessions:
                sessions[ct.floats] = Session(prog, specs, ct.floats, None, skip_init=SKIP_INIT)
            r = verify(sessions[ct.floats], ct, props=frozenset(q['props']) if q['props'] else None, ms=q['ms'], maxfail=q['maxfail'], until=q['until'],
                       confirm=q.get('confirm', False))
            a = dict(fn=ct.name, obs=[answer(o) for o in r.obs], notes=r.notes, error=r.error, contracts=sorted(r.used_contracts),
                     ext=sorted(r.used_ext), inlined=sorted(r.inlined), time=time.time() - t0)
        except BaseException as e:  # the answer carries the failure; the caller treats it as undischarged
            a = dict(fn=ct.name, obs=[], notes=[], error='%s: %s' % (type(e).__name__, e), contracts=[], ext=[], inlined=[], time=time.time() - t0, crashed=True)
        print(json.dumps(a), file=out, flush=True)


if __name__ == '__main__':
    main()
