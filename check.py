#!/usr/bin/env python3
"""Decide one property: check.py Cxx [--thorough]

Verifies every function the property depends on against its contract, from the
source in /repo as it is now, and looks for failing histories on the real code.
Exit 0: held on everything explored; 1: violated (a VIOLATION line is printed).
"""
import sys

sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv"
if not sys.prefix.startswith(VT):
    import os
    os.execv(VT + "/bin/python", [VT + "/bin/python"] + sys.argv)

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("VREPO", "/repo")
REAL_PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
MODULES = ("anycast", "broadcast", "receiver", "merge", "select", "timer", "event", "file_watcher", "exceptions")
SLOW = ("_select.select", "_merge.Merger.ready", "_merge.Merger.stop", "_merge.Merger.__init__")
TRUSTED = json.load(open(os.path.join(HERE, "trusted.json")))


def props_table():
    return {d["id"]: d for d in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}


def list_cases(pkg, prop):
    """(module, index, name) of the cases the property depends on, and what could not be set up."""
    out, bad = [], []
    for m in MODULES:
        try:
            mod = importlib.import_module("contracts." + m)
            for i, c in enumerate(mod.cases(pkg)):
                if prop in c.props:
                    out.append((m, i, c.name))
        except Exception as e:
            bad.append((m, f"{type(e).__name__}: {e}"))
    return out, bad


def work(task):
    """Verify one case; runs in a process of its own."""
    m, i, name, budget, thorough = task
    t0 = time.time()
    res = {"case": name, "obs": [], "unsupported": None, "wall": 0.0}
    try:
        from pyvc.engine import Engine
        from pyvc.loader import Package
        sys.setrecursionlimit(20000)
        pkg = Package(ROOT)
        case = importlib.import_module("contracts." + m).cases(pkg)[i]
        eng = Engine(pkg)
        if thorough:
            eng.ob_timeout *= 5
        eng.run_case(case, budget)
        res["unsupported"] = eng.unsupported
        res["solver_time"] = eng.solver_time
        res["queries"] = eng.queries
        res["paths"] = eng.npaths
        res["exits"] = dict(eng.exits)
        res["inlined"] = sorted(str(getattr(f, "qual", f)) for f in eng.inlined)
        res["assumed"] = sorted(map(str, eng.assumed))
        res["early"] = bool(getattr(eng, "early", False))
        for o in eng.obs.values():
            res["obs"].append({"name": o.name, "props": sorted(o.props), "ok": o.ok, "checks": o.n, "trivial": o.trivial,
                               "reason": o.reason, "undecided": o.undecided, "info": o.info, "model": o.model, "trace": o.trace})
    except Exception as e:
        res["unsupported"] = f"{type(e).__name__}: {e}"
        res["where"] = traceback.format_exc()[-2000:]
    res["wall"] = round(time.time() - t0, 2)
    return res


def _child(task, conn):
    try:
        conn.send(work(task))
    except BaseException as e:
        try:
            conn.send({"case": task[2], "obs": [], "unsupported": f"{type(e).__name__}: {e}", "wall": 0.0})
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_all(tasks, jobs, limit):
    """Run the tasks in processes, at most `jobs` at a time, up to the time limit."""
    ctx = mp.get_context("fork")
    todo = list(tasks)
    live, out = [], []
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < jobs and time.time() < end:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, b))
            p.start()
            b.close()
            live.append((t, p, a))
        if time.time() > end:
            for t, p, a in live:
                p.kill()
                p.join()
                out.append({"case": t[2], "obs": [], "unsupported": "time limit of the check reached", "wall": 0.0})
            for t in todo:
                out.append({"case": t[2], "obs": [], "unsupported": "time limit of the check reached", "wall": 0.0})
            break
        keep = []
        ready = mp.connection.wait([a for _, _, a in live], 0.5) if live else []
        for t, p, a in live:
            if a in ready:
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({"case": t[2], "obs": [], "unsupported": "the verifier was killed", "wall": 0.0})
                a.close()
                p.join(10)
            else:
                keep.append((t, p, a))
        live = keep
    return out


def harness(prop, seconds, jobs, seed, tmp):
    """Search for a failing history on the real code, in parallel."""
    ps = []
    env = dict(os.environ, VREPO=ROOT, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=tmp)
    env.pop("PYTHONPATH", None)
    for j in range(jobs):
        out = os.path.join(tmp, f"h{j}.json")
        p = subprocess.Popen([REAL_PY, os.path.join(HERE, "replay", "run.py"), prop, "--seconds", str(seconds),
                              "--seed", str(seed * 1000 + j), "--out", out], env=env, cwd=tmp,
                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, f"h{j}.err"), "w"))
        ps.append((p, out))
    end = time.time() + seconds + 60
    total = {"executions": 0, "distinct": 0, "per_family": {}, "scenario": None, "errors": [], "searches": jobs}
    live = list(ps)
    while live:
        time.sleep(0.1)
        for x in list(live):
            p, out = x
            if p.poll() is None and time.time() < end:
                continue
            live.remove(x)
            if p.poll() is None:
                p.kill()
                p.wait()
                total["errors"].append("search timed out")
                continue
            try:
                d = json.load(open(out))
            except (OSError, ValueError):
                err = open(out.replace(".json", ".err")).read()[-600:]
                total["errors"].append(err)
                continue
            total["executions"] += d["executions"]
            total["distinct"] += d["distinct"]
            for f, n in d["per_family"].items():
                total["per_family"][f] = total["per_family"].get(f, 0) + n
            if d["scenario"] and total["scenario"] is None:
                total["scenario"] = d["scenario"]
                end = min(end, time.time())
    return total


def collect(results, prop, bad):
    """Obligations of the property: all, failed, failed ones of other properties, what was not decided."""
    mine, failed, indirect, undecided = [], [], [], [f"{m}: {e}" for m, e in bad]
    for r in results:
        if r["unsupported"]:
            undecided.append(f"{r['case']}: {r['unsupported']}")
        for o in r["obs"]:
            o["case"] = r["case"]
            if prop in o["props"]:
                mine.append(o)
                if not o["ok"]:
                    # a solver that ran out of time has decided nothing
                    if o["undecided"]:
                        undecided.append(f"{o['case']}: {o['name']}: {o['reason']}")
                    else:
                        failed.append(o)
            elif not o["ok"]:
                indirect.append(o)
    if not mine and not undecided:
        undecided.append("no obligation was generated for this property")
    return mine, failed, indirect, undecided


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    table = props_table()
    if prop not in table:
        print(f"unknown property {prop}")
        sys.exit(2)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    replay_path = os.path.join(evdir, "replay", f"{prop}.json")
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    jobs = min(8, os.cpu_count() or 4)

    from pyvc.loader import Package
    cases, bad = [], []
    try:
        pkg = Package(ROOT)
        cases, bad = list_cases(pkg, prop)
    except Exception as e:
        bad.append(("package", f"{type(e).__name__}: {e}"))
    limit = 3000 if thorough else 480
    budget = 2500 if thorough else 440
    tasks = [(m, i, n, budget, thorough) for m, i, n in cases]
    tasks.sort(key=lambda t: next((k for k, s in enumerate(SLOW) if t[2].startswith(s)), len(SLOW)))
    results = run_all(tasks, jobs, limit)

    mine, failed, indirect, undecided = collect(results, prop, bad)

    # the known findings of the committed file (none is ever added here)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
    seen = []

    def is_known(o):
        for k in known:
            if k.get("case") == o["case"] and k.get("obligation") == o["name"]:
                seen.append(k)
                return True
        return False
    failed = [o for o in failed if not is_known(o)]
    discharged = [o for o in mine if o["ok"]]

    proved = not failed and not undecided and not indirect
    import tempfile
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        if thorough:
            secs = 240
        elif proved:
            secs = 10
        else:
            secs = 60
        h = harness(prop, secs, jobs, seed, tmp)

    if failed and h["scenario"] is None:
        # inference may have gone astray in the solver: the failure has to repeat itself
        again = {o["case"] for o in failed}
        r2 = {r["case"]: r for r in run_all([t for t in tasks if t[2] in again], jobs, 1000 if thorough else 200)}
        kept = [r2[r["case"]] if r["case"] in r2 and not r2[r["case"]]["unsupported"] else r for r in results]
        results = kept
        mine, failed, indirect, undecided = collect(results, prop, bad)
        failed = [o for o in failed if not is_known(o)]
        discharged = [o for o in mine if o["ok"]]
        proved = not failed and not undecided and not indirect

    for o in failed:
        print(f"FAILED {o['case']}: {o['name']}: {o['reason']} {o['info'] or ''} after {o['trace']}")
    for o in indirect:
        print(f"note: {o['case']}: {o['name']} (of {', '.join(o['props'])}) is not discharged")
    for u in undecided:
        print(f"not proved: {u}")
    for e in h["errors"]:
        print(f"note: a search on the real code ended with: {e}")
    for k in seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    violated = bool(failed) or h["scenario"] is not None
    solver = sum(r.get("solver_time", 0) for r in results)
    by_case = [{"function": r["case"], "obligations": sum(1 for o in r["obs"] if prop in o["props"]),
                "discharged": sum(1 for o in r["obs"] if prop in o["props"] and o["ok"]),
                "goals": sum(o["checks"] for o in r["obs"] if prop in o["props"]),
                "closed_by_simplification": sum(o["trivial"] for o in r["obs"] if prop in o["props"]),
                "paths": r.get("paths"), "solver_queries": r.get("queries"), "solver_s": round(r.get("solver_time", 0), 2),
                "wall_s": r["wall"], "not_decided": r["unsupported"],
                "executed_in_place": r.get("inlined", [])} for r in results]
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": len(mine),
            "discharged": len(discharged),
            "checker_cmd": f"python3 /verif/check.py {prop}" + (" --thorough" if thorough else ""),
            "trusted_base": TRUSTED["base"] + TRUSTED["assumptions"].get(prop, []),
            "back_end": "z3 (python3-vt, library " + _z3() + ")",
            "goals_checked": sum(o["checks"] for o in mine),
            "solver_s": round(solver, 2),
            "solver_queries": sum(r.get("queries", 0) for r in results),
            "functions_under_contract": by_case,
            "obligation_names": sorted({f"{o['case']}: {o['name']}" for o in mine})[:400],
            "undischarged": [{k: o[k] for k in ("case", "name", "reason", "info")} for o in failed],
            "undischarged_of_other_properties": [{k: o[k] for k in ("case", "name", "reason")} for o in indirect],
            "not_decided_by_the_verifier": undecided,
            "assumed_by_contract": sorted({a for r in results for a in r.get("assumed", [])}),
            "bounded_search_on_real_code": {
                "role": "cross-check only" if proved else "labelled bounded: stands in for what the verifier did not decide",
                "bound": f"random histories of at most about 30 operations, {secs} s on {h['searches']} processes",
                "executions": h["executions"], "distinct_histories": h["distinct"], "per_family": h["per_family"],
                "errors": h["errors"]},
        },
        "assumptions": TRUSTED["global"] + TRUSTED["assumptions"].get(prop, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": int(violated),
    }
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    n = len(mine)
    print(f"{prop}: {len(discharged)} of {n} obligations discharged in {len(results)} cases, solver {solver:.1f} s; "
          f"{h['executions']} histories on the real code; {time.time() - t0:.1f} s")
    if not violated:
        print(f"{prop}: " + ("proved" if proved else "held on everything explored (NOT proved; bounded search only for the parts listed)"))
        sys.exit(0)
    rep = {"property": prop, "failed_obligations": failed, "scenario": h["scenario"],
           "not_decided": undecided,
           "how_to_replay": f"{REAL_PY} {HERE}/replay/run.py --replay {replay_path}" if h["scenario"] else None}
    json.dump(rep, open(replay_path, "w"), indent=1)
    if h["scenario"]:
        s = h["scenario"]
        print(f"on the real code: {s['message']}  [{s['family']} {json.dumps(s['params'])} {json.dumps(s['ops'])}]")
        print(f"VIOLATION property={prop} replay={replay_path}")
    else:
        print(f"VIOLATION property={prop} replay={replay_path} no-failing-input-found")
    sys.exit(1)


def _z3():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    import multiprocessing.connection
    main()
