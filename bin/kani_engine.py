"""Runs Kani on a prepared crate and turns its JSON export into obligations."""
import json, os, re, signal, subprocess, pathlib, shutil, time

VERIF = pathlib.Path(__file__).resolve().parent.parent

def env(tier):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["VERIF_TIER"] = tier
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e

def call(cmd, cwd, env, timeout, stdout):
    """subprocess.run that ends the whole process group (the solvers too) when time is up."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        raise

def run(crate, prefixes, tier, jobs=8, harness_timeout="300s", total_timeout=800, extra=()):
    """Returns a dict: build_ok, harnesses: [...], cmd, log, wall_s."""
    out = crate / "kani.json"
    if out.exists():
        out.unlink()
    cmd = ["cargo", "kani", "-Z", "c-ffi", "-Z", "stubbing", "-Z", "unstable-options",
           "--output-format", "terse", "--export-json", str(out),
           "--harness-timeout", harness_timeout, "-j", str(jobs), *extra]
    for p in prefixes:
        cmd += ["--harness", p]
    log = crate / "kani.log"
    t0 = time.time()
    with open(log, "w") as h:
        try:
            rc, _ = call(cmd, crate, env(tier), total_timeout, h)
        except subprocess.TimeoutExpired:
            rc = -9
    wall = time.time() - t0
    text = log.read_text(errors="replace")
    res = dict(cmd=" ".join(cmd[:8]) + " ... " + " ".join(f"--harness {p}" for p in prefixes),
               log=log, wall_s=wall, rc=rc, harnesses=[], build_ok=True)
    if not out.exists():
        res["build_ok"] = False
        errs = re.findall(r"^error.*?(?=^\S|\Z)", text, re.M | re.S)
        res["build_error"] = ("\n".join(errs) or text)[-6000:]
        return res
    d = json.loads(out.read_text())
    meta = {m["pretty_name"]: m for m in d.get("harness_metadata", [])}
    cbmc = {m["harness_id"]: (m.get("cbmc_metadata") or m).get("cbmc_stats") or m.get("cbmc_stats") or {} for m in d.get("cbmc", [])}
    for r in d["verification_results"]["results"]:
        hid = r["harness_id"]
        m = meta.get(hid, {})
        sp = bool((m.get("attributes") or {}).get("should_panic"))
        checks = r.get("checks", [])
        h = dict(id=hid, name=hid.split("::")[-1], ok=r["status"] == "Success", ms=r.get("duration_ms", 0),
                 should_panic=sp, checks=len(checks), solver=cbmc.get(hid, {}))
        fails, limits, covers = [], [], []
        for c in checks:
            st, cat = c["status"], c["category"]
            if cat == "cover":
                covers.append((c["description"], st))
                continue
            if st == "Failure":
                # a loop not fully unwound, or a construct the tool does not model, is a limit of
                # the tool, not a counterexample
                (limits if cat in ("unwind", "unsupported_construct", "missing_definition") or "unwinding assertion" in c["description"] else fails).append(c)
        h["fails"] = fails if not h["ok"] else []
        h["limits"] = limits if not h["ok"] else []
        h["vacuous"] = [d for d, st in covers if st not in ("Satisfied",)]
        h["assertions"] = sum(1 for c in checks if c["category"] == "assertion")
        h["undetermined"] = sum(1 for c in checks if c["status"] == "Undetermined")
        h["passed"] = sum(1 for c in checks if c["status"] in ("Success", "Unreachable", "Satisfied"))
        res["harnesses"].append(h)
    return res

def playback(crate, harness, tier, timeout=280):
    """Counterexample of `harness` as a concrete test, replayed natively against
    the same sources. Returns (reproduced, transcript)."""
    e = env(tier)
    cmd = ["cargo", "kani", "-Z", "c-ffi", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--output-format", "terse", "--harness", harness]
    try:
        t0 = time.time()
        _, text = call(cmd, crate, e, timeout, subprocess.PIPE)
        timeout = max(20, timeout - (time.time() - t0))
    except subprocess.TimeoutExpired:
        return False, "concrete playback: verifier timed out"
    tests = re.findall(r"```\n(.*?)```", text, re.S)
    tests = [t for t in tests if "Check for `cover`" not in t]
    if not tests:
        return False, "the verifier gave no concrete playback test\n" + text[-3000:]
    out = []
    body = ["\n#[cfg(all(test, kani))]\nmod verif_playback {\n    use ::std::vec::Vec;\n    use ::std::vec;\n"]
    for i, t in enumerate(tests[:4]):
        vals = re.search(r"let concrete_vals.*?\];\n", t, re.S)
        body.append("    #[test]\n    fn verif_playback_%d() {\n        %s        kani::concrete_playback_run(concrete_vals, crate::%s);\n    }\n" % (i, vals.group(0), harness))
        out.append(t)
    body.append("}\n")
    for f in (crate / "src").rglob("*.rs"):   # the replay test must be able to name the harness
        f.write_text(re.sub(r"^(\s*)mod (\w+)(;| \{)", r"\1pub(crate) mod \2\3", f.read_text(), flags=re.M))
    lib = crate / "src" / "lib.rs"
    orig = lib.read_text()
    lib.write_text(orig + "".join(body))
    e["RUST_BACKTRACE"] = "0"
    e["RUSTFLAGS"] = "-C link-arg=-Wl,--unresolved-symbols=ignore-all -C link-arg=-Wl,--allow-multiple-definition -C relro-level=off -C link-arg=-Wl,-z,lazy -A warnings --cap-lints allow"
    try:
        q, log = call(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", "verif_playback"], crate, e, timeout, subprocess.PIPE)
    except subprocess.TimeoutExpired:
        log = "native replay timed out"
        q = None
        ran = None
    finally:
        lib.write_text(orig)
    should_panic = "should_panic" in harness
    ran = re.search(r"running \d+ test", log)
    bad = q is not None and ran and (re.search(r"test result: FAILED|signal: |SIGSEGV|SIGABRT|SIGILL|SIGTRAP", log) is not None)
    return bool(bad), "\n".join(out) + "\n--- native replay ---\n" + (log[ran.start():] if ran else log[-3000:])[:6000]
