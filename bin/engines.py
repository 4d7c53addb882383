"""Which engine decides which property."""
import os, pathlib, re, shutil, subprocess, time
import cpp_engine, kani_engine, prep_bridge, prep_gen, prep_rt

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

def kani_obligations(crate, prefixes, tier, bounds, label, extra=(), playback_limit=3, playback_timeout=200, harness_timeout=None, jobs=8):
    ht = harness_timeout or ("400s" if tier == "quick" else "3000s")
    tt = 640 if tier == "quick" else 3500 * 4
    deadline = time.time() + (740 if tier == "quick" else 3700 * 4)
    r = kani_engine.run(crate, prefixes, tier, harness_timeout=ht, total_timeout=tt, extra=extra, jobs=jobs)
    obs = []
    cmds = [f"{label}: {r['cmd']}"]
    if not r["build_ok"]:
        txt = ("The contracts could not be attached to the current source (the code under contract no longer "
               "type-checks against its contract, or the verifier gave up before reporting):\n\n" + r["build_error"])
        obs.append(dict(name=f"{label}:contracts-apply", ok=False, backend="kani/rustc", checks=1, passed=0, ms=int(r["wall_s"] * 1000),
                        fail=dict(kind="no-input", text=txt)))
        return dict(obligations=obs, cmds=cmds)
    pb = 0
    reproduced = False
    for h in sorted(r["harnesses"], key=lambda h: (not h["fails"], h["ms"])):
        o = dict(name=h["name"], ok=h["ok"] and not h["vacuous"], backend="kani/cbmc+cadical", checks=h["checks"],
                 passed=h["passed"], ms=h["ms"],
                 bounded=(bounds.get(h["name"]) or "loop unwinding bound in the contract file") if "bounded" in h["name"] else None)
        if not o["ok"]:
            lines = [f"harness {h['id']}"]
            kind = "no-input"
            if h["vacuous"]:
                lines.append("no longer reachable (vacuous): " + "; ".join(h["vacuous"]))
            for c in h["fails"]:
                loc = c.get("location", {})
                lines.append(f"FAILED {c['category']}: {c['description']}  at {loc.get('file')}:{loc.get('line')}")
            for c in h["limits"]:
                loc = c.get("location", {})
                lines.append(f"NOT DISCHARGED ({c['category']}): {c['description']}  at {loc.get('file')}:{loc.get('line')}")
            if not h["fails"] and not h["limits"] and not h["vacuous"]:
                lines.append("the verifier reported no verdict (timeout or should_panic not met)")
            if h["fails"] and not reproduced and pb < playback_limit and not h["should_panic"] and time.time() + 30 < deadline:
                pb += 1
                got, transcript = kani_engine.playback(crate, h["id"], tier, timeout=min(playback_timeout, deadline - time.time()))
                lines += ["", "counterexample replayed natively against the same source: " + ("FAILS, as predicted" if got else "not reproduced"), transcript]
                if got:
                    kind = "counterexample"
                    reproduced = True
            o["fail"] = dict(kind=kind, text="\n".join(lines))
        obs.append(o)
    return dict(obligations=obs, cmds=cmds)

RT_TRUST = [
    "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL: MIR-to-goto translation and SAT solving",
    "C++ functions called by the Rust runtime are replaced by their contracts (rt/contracts/*.rs); the C++ bodies are the subject of the C-properties",
    "Rust standard library code is verified as compiled by Kani's own toolchain (nightly-2026-08-21), not the repository's",
    "build.rs replaced: same cfg flags set, C++ not compiled",
    "panics are failures; unwinding out of a panic is not modelled",
    "drop glue of Rust allocations: leaks are not detected unless a ghost counter tracks them",
]
BOUNDS = {
    "r04_compare_bounded": "strings up to 4 bytes", "r04_hash_bounded": "strings up to 4 bytes",
    "r04_c_str_bounded": "strings up to 4 bytes", "r04_to_str_bounded": "strings up to 4 bytes",
    "r04_display_bounded": "strings up to 3 bytes (4 in thorough)", "r04_from_utf8_contract_bounded": "up to 3 bytes",
}
for t in ("u16", "u64", "i32"):
    BOUNDS[f"r01_iter_{t}_bounded"] = BOUNDS[f"r01_iter_mut_{t}_bounded"] = "vectors up to 4 elements"

def rt(prefix):
    def go(pid, work, tier):
        try:
            crate = prep_rt.prep(work / "rt", prefix)
        except SystemExit as e:
            return dict(obligations=[dict(name="rt:overlay", ok=False, backend="overlay", fail=dict(kind="no-input", text=str(e)))], cmds=[])
        r = kani_obligations(crate, [prefix], tier, BOUNDS, "rt")
        r["trusted"] = RT_TRUST
        return r
    return go

BRIDGE_TRUST = [t for t in RT_TRUST if not t.startswith("build.rs")] + [
    "the corpus bridge (bridge/gen.py, bridge/forms.py): each type form in each position; signatures outside the corpus are not expanded",
    "macro/src is copied verbatim; a wrapper attribute runs the real #[cxx::bridge] expansion and adds reachability markers to its output",
]
for t in ("truncate", "drop", "reserve"):
    BOUNDS[f"r08_vec_{t}_bounded"] = "vectors up to 3 elements, capacity up to 8"

def bridge(prefix):
    def go(pid, work, tier):
        try:
            crate = prep_bridge.prep(work / "bridge")
        except SystemExit as e:
            return dict(obligations=[dict(name="bridge:overlay", ok=False, backend="overlay", fail=dict(kind="no-input", text=str(e)))], cmds=[])
        r = kani_obligations(crate, [prefix], tier, BOUNDS, "bridge", harness_timeout="150s" if tier == "quick" else "1500s")
        r["trusted"] = BRIDGE_TRUST
        return r
    return go

GEN_TRUST = [
    RT_TRUST[0],
    "syn, quote and proc-macro2 are replaced by contract stubs (gen/mock): identifiers are their text, integer literals their magnitude and suffix, tokens keep only what a contract reads",
    "parsing (syntax/parse.rs, attrs.rs, file.rs) is replaced: bridge items are built directly by the harnesses (gen/harness/build.rs)",
    "syntax/report.rs is replaced: an error is counted, its text is dropped; `format!` yields an empty string",
    "std::collections maps and sets are replaced by linear containers with the documented contract (gen/overlay/mock.rs)",
    "Rust standard library code is verified as compiled by Kani's own toolchain, not the repository's",
    "recursive functions (is_guaranteed_pod, try_eval, toposort::visit) are verified one level at a time, recursive calls replaced by the contract being proved: partial correctness by induction on the size of the input",
    "functions outside /repo/syntax (the two indirect_return, gen/src/cfg.rs) are copied by name from the current tree, text unchanged; an obligation whose function no longer exists under that name is dropped",
]
def gen(prefix, harnesses, timeout=("300s", "1500s")):
    def attempt(work, tier, drop):
        crate = prep_gen.prep(work / "gen", harnesses, drop)
        return kani_obligations(crate, [prefix], tier, BOUNDS, "gen", harness_timeout=timeout[tier != "quick"],
                                playback_limit=1, playback_timeout=150,
                                extra=("--no-memory-safety-checks", "--no-assertion-reach-checks"))  # no unsafe code under contract here
    def go(pid, work, tier):
        notes = []
        try:
            r = attempt(work, tier, False)
            if [o["name"] for o in r["obligations"]] == ["gen:contracts-apply"] and "error" in r["obligations"][0]["fail"]["text"] and prep_gen.droppable(prefix):
                # functions copied out of their file no longer compile there; decide what does not depend on the copy
                again = attempt(work, tier, True)
                if [o["name"] for o in again["obligations"]] != ["gen:contracts-apply"]:
                    notes.append("dropped: obligations on functions copied by name, which no longer compile outside their file")
                    r = again
        except (SystemExit, OSError, ValueError) as e:
            return dict(obligations=[dict(name="gen:overlay", ok=False, backend="overlay", fail=dict(kind="no-input", text=str(e)))], cmds=[])
        r["trusted"] = GEN_TRUST
        r["notes"] = notes
        return r
    return go

PROPERTIES = {}
NOT_APPLICABLE = {}
KANI_TECH = "Kani function contracts on the real Rust code (pre/postcondition harnesses over symbolic inputs, callee contracts as stubs)"
KANI_NOTE = ("Every obligation is discharged by Kani/CBMC over fully symbolic inputs, except those named *_bounded (bound stated in the evidence, never counted as proved). "
             "Functions of the other language are assumed to meet the contracts in the contract files; panics are failures, unwinding is not modelled.")
def prop(pid, **kw):
    kw.setdefault("technique", KANI_TECH)
    kw.setdefault("note", KANI_NOTE)
    PROPERTIES[pid] = kw

prop("R01", engines=[rt("r01_")], level="proof",
     functions=["CxxVector::{new,len,is_empty,get,index_mut,get_unchecked,index_unchecked_mut,as_slice,as_mut_slice,iter,iter_mut,push,pop}",
                "Iter::{next,size_hint,len}", "IterMut::{next,size_hint,len}", "VectorElement for u16,u64,i32 (macro-generated)"])
prop("R02", engines=[rt("r02_")], level="proof",
     functions=["UniquePtr::{null,new,is_null,as_ref,as_mut,pin_mut,as_ptr,as_mut_ptr,into_raw,from_raw,drop,deref,deref_mut,eq,partial_cmp,cmp,hash,fmt}",
                "Read/Write/Seek for UniquePtr", "UniquePtrTarget for CxxString, CxxVector<u8,usize,f64,CxxString>"])
prop("R03", engines=[rt("r03_")], level="proof",
     functions=["SharedPtr::{null,new,is_null,as_ref,downgrade,clone,drop,deref,eq,partial_cmp,cmp,hash,fmt}", "WeakPtr::{null,upgrade,clone,drop}",
                "SharedPtrTarget/WeakPtrTarget for u8,bool,i64,isize,u16,u32,f64,CxxString"])
prop("R04", engines=[rt("r04_")], level="proof",
     functions=["CxxString::{len,is_empty,as_bytes,as_ptr,as_c_str,to_str,clear,reserve,push_str,push_bytes}", "fmt::Write, io::Write, Eq, Ord, Hash, Display for CxxString",
                "let_cxx_string!, StackString", "lossy::display"])
prop("R05", engines=[rt("r05_")], level="proof",
     functions=["RustStr, RustSlice, RustString, RustVec: every conversion and accessor", "cxxbridge1$string$*, cxxbridge1$str$*, cxxbridge1$slice$* entry points"])
prop("R06", engines=[rt("r06_")], level="proof",
     functions=["private::r#try", "to_c_error", "private::Result::exception", "cxxbridge1$exception", "prevent_unwind", "Exception::{what,fmt}"])

BRIDGE_TECH = "Kani contracts on the code the real #[cxx::bridge] macro generates from a corpus bridge, re-expanded on every run (both ends of every generated function under contract)"
prop("R07", engines=[bridge("r07_")], level="proof", technique=BRIDGE_TECH,
     functions=["every function, method and trait impl the macro generates for the corpus's extern \"C++\" block", "expand_cxx_function_shim, expand_cxx_type_impls (through their output)"])
prop("R08", engines=[bridge("r08_")], level="proof", technique=BRIDGE_TECH,
     functions=["every extern \"C\" entry point the macro generates for the corpus's extern \"Rust\" block", "Box<T>/Vec<T> operations exported for opaque and shared T", "expand_rust_function_shim, expand_rust_box, expand_rust_vec (through their output)"])
prop("R09", engines=[bridge("r09_")], level="proof", technique=BRIDGE_TECH,
     functions=["every trait impl macro/src/derive.rs generates for the corpus's shared structs and enums", "operator entry points eq, ne, lt, le, gt, ge, hash"])

GEN_TECH = "Kani function contracts on the real generator sources (/repo/syntax copied verbatim on every run), parser libraries replaced by contract stubs"
prop("G01", engines=[gen("g01_", ["g01"])], level="proof", technique=GEN_TECH,
     functions=["DiscriminantSet::{new,insert,insert_next,inferred_repr}", "Discriminant::{zero,checked_succ,from_str,cmp,eq,to_tokens}", "expr_to_discriminant, insert, Limits::of"])

prop("G03", engines=[gen("g03_", ["g03"])], level="proof", technique=GEN_TECH,
     functions=["check::typecheck, check_type_{ident,box,rust_vec,unique_ptr,shared_ptr,weak_ptr,cxx_vector,ref,ptr,slice_ref,array}", "check_api_{struct,fn} (values by position, receivers, pointer arguments)", "is_unsized, is_opaque_cxx"])

prop("G04", engines=[gen("g04_", ["g03","g04"])], level="proof", technique=GEN_TECH,
     functions=["trivial::required_trivial_reasons"])

prop("G05", engines=[gen("g05_", ["g03","g05"])], level="proof", technique=GEN_TECH,
     functions=["Types::needs_indirect_abi", "Types::is_guaranteed_pod (recursive calls assumed to meet its contract)", "Types::{determine_improper_ctype,is_considered_improper_ctype}", "indirect_return in gen/src/write.rs and in macro/src/expand.rs"])
prop("G06", engines=[gen("g06_", ["g06"])], level="proof", technique=GEN_TECH,
     functions=["PartialEq and Hash for Type, NamedType, Lifetimes, Ty1, Ref, Ptr, SliceRef, Array, Signature, Receiver"])

prop("G07", engines=[gen("g07_", ["g07"])], level="proof", technique=GEN_TECH,
     functions=["toposort::visit (recursive calls assumed to meet its contract; structs of one or two fields)", "toposort::sort (against the contract of visit; up to three structs)"])
prop("G08", engines=[gen("g08_", ["g08"])], level="proof", technique=GEN_TECH,
     functions=["try_eval in gen/src/cfg.rs (recursive calls assumed to meet its contract; lists of more than two operands bounded)", "eval in gen/src/cfg.rs", "CfgExpr::merge"])

CPP_TRUST = [
    "cpp/vcgen.py (the verification-condition generator for LLVM IR written for this task) and Z3",
    "clang 18 at -O0 translates the C++ source to the IR that is verified; libstdc++ headers are compiled along and verified as code",
    "undefined behaviour flags of IR arithmetic (nsw, inbounds) are not obligations; machine arithmetic itself is exact (bit-vectors)",
    "objects of unknown size are smaller than 2^38 bytes; operator new does not fail unless a harness says so",
    "exceptions follow the Itanium C++ ABI as modelled in cpp/vcgen.py (throw, landing pads, catch clauses, noexcept, terminate)",
    "Rust functions called by the C++ runtime are replaced by their contracts (cpp/h/rust_*.h); the Rust bodies are the subject of the R-properties",
    "libstdc++ functions without a header body (out-of-line exception constructors, ostream::write) are replaced by contracts",
]
def cpp(name, budget=(150, 1200), std="c++17", srcs=None):
    def go(pid, work, tier):
        obs, cmds, fns, stubs = [], [], set(), set()
        for n in srcs or [name]:
            r = cpp_engine.run(VERIF / f"cpp/h/{n}.cc", n.split("-")[0] + "_", work / "cpp", budget[tier != "quick"], std=std, label=n)
            obs += r["obligations"]; cmds += r["cmds"]; fns |= set(r.get("fns", ())); stubs |= set(r.get("stubs", ()))
        notes = []
        if fns: notes.append(dict(functions_executed_by_the_verifier=sorted(fns)))
        if stubs: notes.append(dict(replaced_by_contract=sorted(stubs)))
        return dict(obligations=obs, cmds=cmds, trusted=CPP_TRUST, notes=notes)
    return go
CPP_TECH = "contract harnesses on the real C++ code, discharged path by path over its LLVM IR by a verification-condition generator with Z3 (symbolic values and object sizes, callee contracts in place of Rust functions)"
CPP_NOTE = ("Every obligation is decided by Z3 over all values, all object sizes below 2^38 bytes and all paths including exceptional ones; those named *_bounded are bounded as stated and never counted as proved. "
            "Rust functions are assumed to meet the contracts discharged by the R-properties. The VC generator is part of the trusted base.")
def cprop(pid, name, functions, **kw):
    prop(pid, engines=[cpp(name)], level="proof", technique=CPP_TECH, note=CPP_NOTE, functions=functions, **kw)
cprop("C01", "c01", ["rust::String: every constructor, assignment, lossy, conversion, accessor, c_str, reserve, iteration, comparison, swap, operator<<, destructor"])
cprop("C02", "c02", ["rust::Str: every constructor, conversion, accessor, iteration, comparison, swap, operator<<"])
cprop("C03", "c03", ["rust::Slice<T>: constructors, accessors, operator[], at, front, back, begin, end, swap", "rust::Slice<T>::iterator: every operator"])
cprop("C04", "c04", ["rust::Vec<T>: every member", "RUST_VEC_OPS specialisations for every built-in element type"])
cprop("C05", "c05", ["rust::Box<T>: every member"])
cprop("C06", "c06", ["rust::Error: every member", "cxxbridge1$error", "rust::cxxbridge1::Fail", "repr::PtrLen, private::trycatch helpers in cxx.cc"])
cprop("C07", "c07", ["cxxbridge1$cxx_string$* (7)", "cxxbridge1$unique_ptr$std$string$* (5)", "cxxbridge1$std$vector$T$* and unique_ptr$std$vector$T$* for every T of FOR_EACH_STD_VECTOR",
                     "cxxbridge1$std$shared_ptr$T$*, std$weak_ptr$T$* for every T of FOR_EACH_SHARED_PTR (over libstdc++'s control block, any counts)"])

def generated(prefix, label, budget=(150, 1200)):
    def go(pid, work, tier):
        r = cpp_engine.run_generated(work / "cpp", prefix, budget[tier != "quick"], label=label)
        notes = []
        if r.get("fns"): notes.append(dict(functions_executed_by_the_verifier=[f for f in r["fns"] if "cxxbridge1" in f or f.startswith("@_ZN1n") or f.startswith("@_ZNK1n")]))
        if r.get("stubs"): notes.append(dict(replaced_by_contract=r["stubs"]))
        return dict(obligations=r["obligations"], cmds=r["cmds"], trusted=CPP_TRUST, notes=notes)
    return go
prop("C08", engines=[generated("c08_", "c08")], level="proof",
     technique="contract harnesses on the C++ code the current cxxbridge generates for a corpus bridge of every type form, discharged path by path over its LLVM IR by a verification-condition generator with Z3",
     note=CPP_NOTE + " The generator is run on every check; its output is verified for the corpus bridge, which has every form of type in every position, but not for every bridge.",
     functions=["every extern \"C\" shim, C++ wrapper, operator, layout function, Box/Vec specialisation and smart pointer helper cxxbridge writes for the corpus bridge (bridge/gen.py)"])
prop("X01", engines=[generated("x01_", "x01")], level="proof",
     technique="contract harnesses whose callee contract allows it to throw anything: the generated C++ entry point must reach std::terminate on every path (VC generator over LLVM IR, Z3)",
     note=CPP_NOTE,
     functions=["every extern \"C\" shim cxxbridge writes for a C++ function of the corpus bridge"])
