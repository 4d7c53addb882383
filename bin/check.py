#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: prepares the property's crates/translation units from
/repo's current tree, runs the verifier on every contract, writes
evidence/<id>.json and a replay file for each failed obligation."""
import argparse, json, os, pathlib, re, shutil, subprocess, sys, time, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
VERIF = pathlib.Path(__file__).resolve().parent.parent
import engines

def load_findings():
    p = VERIF / "known-findings.txt"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    replays = VERIF / "replays" / pid
    if replays.exists():
        shutil.rmtree(replays)
    replays.mkdir(parents=True)
    work = VERIF / "build" / pid
    if work.exists():
        shutil.rmtree(work)
    work.mkdir(parents=True)

    spec = engines.PROPERTIES[pid]
    # each engine returns a list of obligations:
    #  dict(name, ok, bounded(None or str), backend, ms, functions, fail: None or dict(kind='counterexample'|'no-input', text, replay), limit)
    obligations, cmds, trusted, notes = [], [], [], []
    for run in spec["engines"]:
        r = run(pid, work, tier)
        obligations += r["obligations"]
        cmds += r["cmds"]
        trusted += r.get("trusted", [])
        notes += r.get("notes", [])
    failed = [o for o in obligations if not o["ok"]]
    findings = [f for f in load_findings() if f[0] == pid]
    known, fresh = [], []
    for o in failed:
        k = [f for f in findings if f[1] == o["name"]]
        (known if k else fresh).append((o, k))
    wall = time.time() - t0
    bounded = [o for o in obligations if o.get("bounded")]
    unb = [o for o in obligations if not o.get("bounded")]
    backends = {}
    for o in obligations:
        b = backends.setdefault(o["backend"], dict(contracts=0, checks=0, discharged_checks=0, time_ms=0))
        b["contracts"] += 1
        b["checks"] += o.get("checks", 0)
        b["discharged_checks"] += o.get("passed", 0)
        b["time_ms"] += o.get("ms", 0)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec["level"],
        coverage=dict(
            obligations=len(unb), discharged=sum(1 for o in unb if o["ok"]),
            bounded_obligations=len(bounded), bounded_discharged=sum(1 for o in bounded if o["ok"]),
            bounds={o["name"]: o["bounded"] for o in bounded},
            checker_cmd="; ".join(cmds) or "none",
            trusted_base=sorted(set(trusted + spec.get("trusted", []))),
            functions_under_contract=spec.get("functions", []),
            by_backend=backends,
            contracts={o["name"]: dict(ok=o["ok"], checks=o.get("checks", 0), ms=o.get("ms", 0), bounded=bool(o.get("bounded"))) for o in obligations},
            samples=[o["name"] for o in obligations[:5]],
            explanation=spec.get("explanation", ""),
            notes=notes,
        ),
        assumptions=sorted(set(trusted + spec.get("trusted", []) + spec.get("assumptions", []))),
        wall_s=round(wall, 2), violations=len(fresh))
    if spec["level"] != "proof":
        ev["coverage"]["evaluations"] = sum(o.get("checks", 0) for o in obligations)
        ev["coverage"]["distinct_nontrivial"] = sum(1 for o in obligations if o.get("checks", 0) > 0)
        ev["coverage"]["rule"] = "one case per contract; non-trivial when the verifier generated at least one check for it"
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    for o in obligations:
        mark = "ok  " if o["ok"] else "FAIL"
        print(f"{mark} {o['name']}{' [bounded: ' + o['bounded'] + ']' if o.get('bounded') else ''} ({o.get('checks', 0)} checks, {o.get('ms', 0)} ms)")
    for o, k in known:
        print(f"KNOWN-FINDING: property={pid} {o['name']}: {k[0][2]}")
    if not obligations:
        print("no obligation was generated: machinery error", file=sys.stderr)
        sys.exit(2)
    print(f"{pid}: {len(obligations)} obligations, {len(failed)} failed, {wall:.0f} s")
    if not fresh:
        sys.exit(0)
    any_input = None
    first = None
    for o, _ in fresh:
        f = replays / (re.sub(r"[^A-Za-z0-9_.-]", "_", o["name"]) + ".txt")
        f.write_text(f"property {pid}\nfailed obligation: {o['name']}\n\n" + o["fail"]["text"] + "\n")
        first = first or f
        if o["fail"]["kind"] == "counterexample" and any_input is None:
            any_input = f
    if any_input is not None:
        print(f"VIOLATION property={pid} replay={any_input}")
    else:
        print(f"VIOLATION property={pid} replay={first} no-failing-input-found")
    sys.exit(1)

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
