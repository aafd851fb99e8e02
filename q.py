import sys, importlib, time, os
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import threading; threading.stack_size(512<<20)
from vc import verifier
m=importlib.import_module('contracts.'+sys.argv[1])
flt=sys.argv[2] if len(sys.argv)>2 else ''
def main():
    for t in m.tasks():
        if flt not in t[0]: continue
        class Q:
            def put(self,x):
                x=x[1]; print(t[0], {k:x[k] for k in ('err','paths','queries')}, 'wall %.1f solver %.1f'%(x['wall'],x['solver']))
                for o in x['obs']: print('   %-8s %6.1f %s %s'%(o['status'],o['time'],o['label'][:90], o['detail'][:int(os.environ.get('DL','200'))] if o['status']!='proved' else ''))
        verifier._run(t if len(t)==3 else tuple(t)+({},),0,Q())
th=threading.Thread(target=main); th.start(); th.join()
