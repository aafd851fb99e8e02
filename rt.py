import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib,time
from vc import verifier
m=importlib.import_module('contracts.'+sys.argv[1])
ts=[t for t in m.tasks() if len(sys.argv)<3 or sys.argv[2] in t[0]]
t0=time.time()
rs=verifier.run_tasks(ts,jobs=8,deadline=time.time()+float(sys.argv[3] if len(sys.argv)>3 else 600))
for r in rs:
    bad=[(o['label'],o['status'],o['detail'][:400]) for o in r['obs'] if o['status'] not in('proved','skipped')]
    print(r['qual'],'err',r['err'],'%.1f'%r['wall'],len(r['obs']),'covered',r['covered'],bad)
print('%.1f s'%(time.time()-t0))
