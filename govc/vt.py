#!/usr/bin/env python3-vt
"""developer tool: verify named functions verbosely"""
import sys, time, glob
sys.path.insert(0, '/verif/govc')
sys.setrecursionlimit(20000)
from vc.verify import *
def main():
    t=time.time()
    prog=Program('/tmp/ssa.json'); specs=Specs(prog)
    for f in sorted(glob.glob('/verif/contracts/**/*.go', recursive=True)): specs.load(f)
    sess={}
    print('load %.1f'%(time.time()-t))
    for ct in specs.order:
        if any((ct.short.endswith(a) or a.endswith("_") and ct.short.startswith(a)) or a in ('all',) for a in sys.argv[1:] if not a.startswith('-')):
            if ct.floats not in sess:
                t=time.time(); sess[ct.floats]=Session(prog,specs,ct.floats,print,skip_init=('gitlab.cs.fau.de/since/radolan/radolan2png',)); print('init %s %.1f'%(ct.floats,time.time()-t))
            if not ct.lemma and ct.name not in prog.fns: print('MISSING',ct.name); continue
            if not ct.lemma and not specs.matches(prog.fns[ct.name],ct): print('SIGNATURE',ct.name,prog.fns[ct.name].params,prog.fns[ct.name].results, ct.params, ct.results); continue
            r=verify(sess[ct.floats],ct,debug=True)
            if '-v' in sys.argv:
                for o in r.obs: print('   ',o.status,o.solver,'%.2f'%o.time,o.kind,o.name.replace('\n',' ')[:100],o.pos)
            print('   uses',sorted(x.split('/')[-1] for x in r.used_contracts),'inl',sorted(x.split('/')[-1] for x in r.inlined),'ext',sorted(r.used_ext),r.notes)
main()
