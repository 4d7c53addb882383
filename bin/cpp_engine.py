"""Runs the C++ contract engine (cpp/): harness -> LLVM IR -> verification conditions -> Z3; replays counterexamples natively."""
import json, os, pathlib, re, subprocess, sys, time
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-w"]
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY): PY = "python3-vt"

def compile(src, out, std="c++17", inc=()):
    text = src.read_text()
    if REPO != "/repo":
        text = text.replace('"/repo/', f'"{REPO}/')
    src2 = out.parent / src.name
    src2.write_text(text)
    cmd = ["clang++", f"-std={std}", *FLAGS, f"-I{VERIF}/cpp/h", *[f"-I{i}" for i in inc], "-S", "-emit-llvm", str(src2), "-o", str(out)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode == 0, p.stderr, " ".join(cmd)

RENAME = {"malloc": "vp_malloc", "free": "vp_free", "_Znwm": "vp_new", "_Znam": "vp_newa", "_ZdlPv": "vp_delete", "_ZdlPvm": "vp_delete_n", "_ZdaPv": "vp_deletea",
          "_ZNSt12out_of_rangeC1EPKc": "vp_out_of_range", "_ZNSt16invalid_argumentC1EPKc": "vp_invalid_argument"}
def native_ir(text):
    """contracts take the place of the functions they describe"""
    text = re.sub(r'@"([A-Za-z0-9_.$]+)"', r"@\1", text)
    contracts = {m for m in re.findall(r"^define [^\n]*@contract\$([A-Za-z0-9_.$]+)\(", text, re.M)}
    defined = {m for m in re.findall(r"^define [^\n]*?@([A-Za-z0-9_.$]+)\(", text, re.M)}
    out, cur = [], None
    for line in text.splitlines():
        if re.match(r"\$\S+ = comdat", line) or re.match(r'\$"', line): continue
        if line.startswith("define"):
            line = line.replace(" comdat ", " ")
            cur = re.search(r'@("[^"]*"|[A-Za-z0-9_.$]+)\(', line).group(1)
            head = True
        else:
            head = False
            line = re.sub(r", comdat(\([^)]*\))?", "", line)
        def sub(m):
            n = m.group(1)
            if n in contracts:
                if (head and n == cur) or cur == "contract$" + n: return "@orig$" + n if n in defined else "@" + RENAME.get(n, n)
                if line.startswith("declare"): return "@" + n
                return "@contract$" + n
            if n in RENAME and n not in defined: return "@" + RENAME[n]
            return m.group(0)
        line = re.sub(r"@([A-Za-z0-9_.$]+)", sub, line)
        if line == "}": cur = None
        out.append(line)
    return "\n".join(out) + "\n"

def replay(ll, name, values, work):
    if values is None: return False, "no model"
    d = work / ("replay_" + name); d.mkdir(parents=True, exist_ok=True)
    (d / "native.ll").write_text(native_ir(ll.read_text()))
    with open(d / "values.txt", "w") as f:
        for v in values:
            if v[0] == "arr": f.write(f"a {v[1]} {len(v[2])} " + " ".join(map(str, v[2])) + "\n")
            else: f.write(f"v {v[1]}\n")
    cmd = ["clang++", "-std=c++17", "-g", "-no-pie", "-w", f"-DHARNESS={name}", str(VERIF / "cpp/native.cc"), str(d / "native.ll"), "-o", str(d / "run"),
           "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: return False, "the native replay does not build: " + p.stderr[-800:]
    try:
        q = subprocess.run([str(d / "run"), str(d / "values.txt")], capture_output=True, text=True, timeout=60, cwd=d)
    except subprocess.TimeoutExpired:
        return False, "the native replay timed out"
    return q.returncode == 1 and "FAILS" in q.stdout, (q.stdout + q.stderr)[-1500:] + f"(exit {q.returncode})\nvalues: {json.dumps(values)[:3000]}"

def fail1(label, what, backend, text, cmds):
    return dict(obligations=[dict(name=f"{label}:{what}", ok=False, backend=backend, checks=1, passed=0, ms=0, fail=dict(kind="no-input", text=text))], cmds=cmds)

def run(src, prefix, work, budget, jobs=8, std="c++17", inc=(), label=None):
    """-> obligations of one harness file, which includes the sources it is about"""
    work.mkdir(parents=True, exist_ok=True)
    ll = work / (src.stem + ".ll")
    label = label or src.stem
    ok, err, cmd = compile(src, ll, std, inc)
    if not ok: return fail1(label, "contracts-apply", "clang", "The contracts do not compile against the current source:\n\n" + err[-6000:], [cmd])
    return judge(ll, src, prefix, work, budget, jobs, label, [cmd])

def run_generated(work, prefix, budget, jobs=8, std="c++17", label="c08"):
    """-> obligations over the C++ code the current cxxbridge generates for the corpus bridge"""
    work.mkdir(parents=True, exist_ok=True)
    cmds = []
    def sh(cmd, **kw):
        cmds.append(" ".join(map(str, cmd)))
        return subprocess.run(list(map(str, cmd)), capture_output=True, text=True, **kw)
    tgt = VERIF / "build" / "cli"
    p = sh(["bash", "-c", f"[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd {REPO} && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={tgt} cargo build -q --offline -p cxxbridge-cmd"])
    if p.returncode != 0: return fail1(label, "generator-builds", "rustc", "cxxbridge does not build:\n" + p.stderr[-6000:], cmds)
    h = work / "h"
    sh([PY, VERIF / "cpp/gen_c08.py", h], check=True)
    (h / "rust").mkdir(exist_ok=True)
    (h / "rust/cxx.h").write_text(pathlib.Path(REPO, "include/cxx.h").read_text())
    sys.path.insert(0, str(VERIF / "bridge"))
    import gen
    (h / "bridge.rs").write_text(gen.bridge())
    for out, flag in (("bridge.cc", []), ("bridge.h", ["--header"])):
        p = sh([tgt / "debug/cxxbridge", h / "bridge.rs", *flag])
        if p.returncode != 0: return fail1(label, "generator-accepts", "cxxbridge", "cxxbridge does not accept the corpus bridge:\n" + p.stderr[-6000:], cmds)
        (h / out).write_text(p.stdout)
    units = [pathlib.Path(REPO, "src/cxx.cc"), VERIF / "cpp/g/tail.cc", h / "c08.cc"]
    procs = []
    for u in units:
        cmd = ["clang++", f"-std={std}", *FLAGS, f"-I{h}", f"-I{VERIF}/cpp/h", f"-I{VERIF}/cpp/g", "-S", "-emit-llvm", str(u), "-o", str(work / (u.stem + ".u.ll"))]
        cmds.append(" ".join(cmd))
        procs.append(subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True))
    errs = [p.communicate()[1] for p in procs]
    for p, e in zip(procs, errs):
        if p.returncode != 0: return fail1(label, "contracts-apply", "clang", "The generated code, or the contracts against it, do not compile:\n\n" + e[-6000:], cmds)
    ll = work / "all.ll"
    p = sh(["llvm-link", "-S", *[work / (u.stem + ".u.ll") for u in units], "-o", ll])
    if p.returncode != 0: return fail1(label, "links", "llvm-link", "the generated code, the runtime and the contracts do not link:\n" + p.stderr[-4000:], cmds)
    return judge(ll, h / "c08.cc", prefix, work, budget, jobs, label, cmds)

def judge(ll, src, prefix, work, budget, jobs, label, cmds):
    p = subprocess.run([PY, str(VERIF / "cpp/engine.py"), str(ll), prefix, str(budget), str(jobs)], capture_output=True, text=True)
    if p.returncode != 0: return fail1(label, "verifier", "vcgen", "the verifier failed on the current source:\n" + p.stderr[-4000:], cmds)
    text = src.read_text()
    # functions of the harness file, with the labels each must reach
    mine = re.split(r'(?m)^(?=extern "C" void [a-z0-9]+_)', text) if label in ("c08", "x01") else [text]
    mine = [m for m in mine if label not in ("c08", "x01") or re.match(r'extern "C" void ' + prefix, m)]
    need = {l for m in mine for a in re.findall(r'vcover\(([^;]*)\);', m) for l in re.findall(r'"([^"]+)"', a)}
    obs, fns, stubs, replays = [], set(), set(), 0
    for r in json.loads(p.stdout):
        checks = r["asserts"] + r["accesses"]
        o = dict(name=r["name"], ok=r["ok"], backend="vcgen/z3", checks=checks, passed=checks if r["ok"] else max(0, checks - 1), ms=r["ms"], covers=r["covers"],
                 bounded=("the size stated in the harness" if "bounded" in r["name"] else None), paths=r["paths"], solver_ms=r["solver_ms"], stubs=r["stubs"])
        fns |= set(r["fns"]); stubs |= set(r["stubs"])
        if r["ok"] and not ({"done", "terminate"} & set(r["covers"])):
            o["ok"] = False
            o["fail"] = dict(kind="no-input", text="vacuous: no path reaches the end of the harness")
        elif not r["ok"]:
            kind, text = "no-input", f"harness {r['name']} ({src.name})\nFAILED: {r['text']}"
            if r["kind"] == "violation" and replays < 3:
                replays += 1
                try:
                    got, tr = replay(ll, r["name"], r.get("values"), work)
                except Exception as e:  # the replay only decorates the violation
                    got, tr = False, "the native replay failed: %r" % e
                text += "\n\ncounterexample replayed natively, compiled from the same source: " + ("FAILS, as predicted" if got else "not reproduced") + "\n" + tr
                if got: kind = "counterexample"
            o["fail"] = dict(kind=kind, text=text)
        obs.append(o)
    seen = {c for o in obs for c in o["covers"]}
    if all(o["ok"] for o in obs) and need - seen:
        obs.append(dict(name=f"{label}:coverage", ok=False, backend="vcgen/z3", checks=1, passed=0, ms=0, covers=[],
                        fail=dict(kind="no-input", text="no path reaches these points of the contracts any more: " + ", ".join(sorted(need - seen)))))
    return dict(obligations=obs, cmds=cmds + [f"{PY} cpp/engine.py {ll.name} {prefix} {budget} {jobs}"], fns=sorted(fns), stubs=sorted(stubs))
