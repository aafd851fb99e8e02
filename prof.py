import sys, importlib, time, cProfile, pstats, threading, signal
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vc import verifier, prover
m=importlib.import_module('contracts.'+sys.argv[1])
t=[t for t in m.tasks() if sys.argv[2] in t[0]][0]
class Stop(BaseException): pass
def h(*a): raise Stop()
signal.signal(signal.SIGALRM,h); signal.setitimer(signal.ITIMER_REAL,float(sys.argv[3]),0.37)
pr=cProfile.Profile(); pr.enable()
class Q:
    def put(self,x):
        x=x[1]; print({k:x[k] for k in ('err','paths','solver','queries')}, [(o['label'],o['status'],o['time']) for o in x['obs']])
try: verifier._run(t if len(t)==3 else tuple(t)+({},),0,Q())
except Stop: pass
pr.disable(); signal.setitimer(signal.ITIMER_REAL,0)
print('solver',prover.STATS.time,prover.STATS.queries)
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
