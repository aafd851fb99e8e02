import sys, importlib, time
sys.path.insert(0,'/verif')
from vc import verifier
m=importlib.import_module('contracts.'+sys.argv[1])
ts=m.tasks()
if len(sys.argv)>2: ts=[t for t in ts if any(a in t[0] for a in sys.argv[2:])]
import os
for r in verifier.run_tasks(ts, deadline=time.time()+float(os.environ.get("DL","600"))):
    print(r['qual'], 'err=',r['err'], r['paths'],'covered',r['covered'],'wall %.1f solver %.1f q %d'%(r['wall'],r['solver'],r['queries']))
    agg={}
    for o in r['obs']:
        a=agg.setdefault((o['label'],o['status']),[0,0,'']); a[0]+=1; a[1]+=o['time']; a[2]=a[2] or o['detail']
    for (l,s),a in agg.items(): print('    %-10s %s x%d %.1fs %s'%(s,l,a[0],a[1],a[2][:900]))
