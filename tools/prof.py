import sys, time, importlib, os, collections, traceback
sys.path.insert(0, "/verif")
from pyvc.loader import Package
from pyvc import core
from pyvc.engine import Engine
pkg = Package(os.environ.get("VREPO", "/repo"))
m = importlib.import_module("contracts." + sys.argv[1])
T=collections.Counter(); N=collections.Counter(); R=collections.Counter()
orig=core.St.check
def check(self, extra, timeout):
    t=time.time(); r=orig(self, extra, timeout); d=time.time()-t
    fr=sys._getframe(1); 
    while fr.f_code.co_name in ("must","_decide","branch"): fr=fr.f_back
    k=fr.f_code.co_name+":"+str(fr.f_lineno)
    T[k]+=d; N[k]+=1; R[(k,str(r[0]))]+=d
    return r
core.St.check=check
import cProfile,pstats
for c in m.cases(pkg):
    if sys.argv[2]!=c.name: continue
    e=Engine(pkg)
    t=time.time()
    p=cProfile.Profile(); p.enable()
    e.run_case(c)
    p.disable()
    print(c.name, e.unsupported, time.time()-t, e.solver_time, e.npaths,e.rounds)
    for k,v in T.most_common(15): print(f"  {k} {v:.1f}s n={N[k]}")
    for k,v in R.most_common(15): print("  ",k,round(v,1))
    pstats.Stats(p).sort_stats(os.environ.get("PSORT","cumtime")).print_stats(45)
    if "PCALL" in os.environ: pstats.Stats(p).sort_stats("cumtime").print_callers(os.environ["PCALL"])
