"""Developer tool: verify the cases of a module: vc.py MODULE [filter] [-v]"""
import sys, time, importlib
sys.path.insert(0, "/verif")
from pyvc.loader import Package
from pyvc.engine import Engine
import os
root = os.environ.get("VREPO", "/repo")
args = [a for a in sys.argv[1:] if a != "-v"]
pkg = Package(root)
m = importlib.import_module("contracts." + args[0])
for c in m.cases(pkg):
    if len(args) > 1 and args[1] not in c.name: continue
    e = Engine(pkg, verbose="-v" in sys.argv)
    t = time.time()
    e.run_case(c)
    bad = [o for o in e.obs.values() if not o.ok]
    print(f"{c.name}: {len(e.obs)} obligations, {sum(o.n for o in e.obs.values())} checks, {len(bad)} failed, {e.npaths} paths, {e.rounds} rounds, {e.queries} queries, {time.time()-t:.1f}s {'UNSUPPORTED '+e.unsupported if e.unsupported else ''} exits={dict(e.exits)}", flush=True)
    if e.unsupported and "-v" in sys.argv: print(e.where)
    for o in bad:
        print("   FAILED", o.name, sorted(o.props), o.reason, o.info, "| trace:", o.trace)
        if "-v" in sys.argv: print("      ", o.model)
