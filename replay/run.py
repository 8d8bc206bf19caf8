"""Search for a failing scenario on the real code, or run a recorded one again.

run.py PROP --seconds N --seed S [--out FILE]      prints a JSON object
run.py --replay FILE                               exit 1 when it still fails
"""
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("VREPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, "src"), HERE]


def families():
    import faketime  # noqa: F401  (replaces watchfiles.awatch before the package is imported)
    import importlib
    out = []
    for m in ("chan", "recv", "merging", "selecting", "timing", "eventing", "watching"):
        out += importlib.import_module(m).FAMILIES
    return out


def main():
    args = sys.argv[1:]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default
    from world import execute, shrink
    if "--replay" in args:
        d = json.load(open(opt("--replay", None)))
        s = d.get("scenario")
        if not s:
            print("no scenario is recorded in this file")
            sys.exit(2)
        fam = {f.name: f for f in families()}[s["family"]]
        m = execute(fam, d["property"], s["params"], s["ops"], s["seed"])
        print(f"{d['property']}: {m}" if m else "the scenario passes")
        sys.exit(1 if m else 0)
    prop = args[0]
    seconds = float(opt("--seconds", 10))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    fams = [f for f in families() if prop in f.props]
    t0 = time.time()
    n = 0
    distinct = set()
    per = {f.name: 0 for f in fams}
    bad = None
    maxn = int(opt("--max", 10**9))
    while fams and bad is None and time.time() - t0 < seconds and n < maxn:
        fam = fams[n % len(fams)]
        s = f"{seed}/{fam.name}/{n}"
        rng = random.Random(s)
        params, ops = fam.gen(rng)
        n += 1
        per[fam.name] += 1
        distinct.add(hash(json.dumps([fam.name, params, ops])))
        m = execute(fam, prop, params, ops, n)
        if m is not None:
            ops, m2 = shrink(fam, prop, params, ops, n)
            bad = {"family": fam.name, "params": params, "ops": ops, "seed": n, "message": m2 or m}
    out = {"property": prop, "executions": n, "distinct": len(distinct), "per_family": per, "wall_s": round(time.time() - t0, 2),
           "scenario": bad}
    txt = json.dumps(out)
    if "--out" in args:
        open(opt("--out", None), "w").write(txt)
    print(txt)


if __name__ == "__main__":
    main()
