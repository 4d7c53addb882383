#!/usr/bin/env python3-vt
"""engine.py MODULE.ll PREFIX BUDGET JOBS -> JSON list of harness results on stdout."""
import json, multiprocessing as mp, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import z3, llir, vcgen

def values(e, v):
    if v.model is None or v.state is None: return None
    out = []
    for w, x, *r in v.state.nondets:
        if w == "arr":
            n = v.model.eval(x, model_completion=True).as_long()
            k = min(n, 256)
            out.append(["arr", n, [v.model.eval(z3.Select(r[0][0], z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(k)]])
        else:
            out.append([w, v.model.eval(x, model_completion=True).as_long()])
    return out

def one(a):
    name, budget = a
    t = time.time()
    e = vcgen.Exec(MOD, deadline=t + budget)
    r = dict(name=name, ok=False)
    try:
        st = e.run(name)
        r["ok"] = True
    except vcgen.Violation as v:
        r["kind"] = "violation"
        r["text"] = v.msg
        if v.state is not None and v.state.frames:
            r["text"] += "\n  in " + e.where(v.state)
        r["values"] = values(e, v)
    except vcgen.Limit as l:
        r["kind"] = "limit"
        r["text"] = f"not discharged: {l}"
    except Exception as x:
        r["kind"] = "limit"
        r["text"] = "not discharged: the verifier failed\n" + traceback.format_exc()[-3000:]
    s = e.stats
    r.update(ms=int((time.time() - t) * 1000), paths=s["paths"], steps=s["steps"], asserts=s["asserts"], accesses=s["accesses"], queries=s["queries"],
             solver_ms=int(s["solver_s"] * 1000), covers=sorted(s["covers"]), fns=sorted(s["fns"]), stubs=sorted(s["stubs"]), sites=sorted(s.get("sites", ())))
    return r

if __name__ == "__main__":
    text = open(sys.argv[1]).read()
    MOD = llir.parse(text)
    prefix, budget, jobs = sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    names = [n[1:] for n in MOD.fns if n[1:].startswith(prefix)]
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=8) as pool:
        res = pool.map(one, [(n, budget) for n in names], chunksize=1)
    json.dump(res, sys.stdout)
