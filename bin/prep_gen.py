#!/usr/bin/env python3
"""Mechanical overlay of /repo/syntax and the string-building parts of
/repo/gen/src for the Kani generator engine.

Every file of /repo/syntax is copied verbatim except: attrs.rs, file.rs,
parse.rs (token parsing) and report.rs (error text) are replaced by the stubs
in gen/overlay; `std::collections::` is redirected to gen/overlay/mock.rs (linear
containers with the same contract); `format!` is shadowed so error text is not
built; modules are made crate-visible. The crates syn, quote and proc-macro2 are replaced by the stubs in
gen/mock. Nothing else of the copied text is dropped or rewritten. EXTRACT lists functions outside
/repo/syntax that are copied by name."""
import os, re, shutil, sys, pathlib
from prep_rt import open_up
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
OVERLAY = ("attrs.rs", "file.rs", "parse.rs", "report.rs")

def redirect(text):
    return text.replace("std::collections::", "crate::mock::")

# functions of the two halves of the generator that are extracted by name, text unchanged
EXTRACT = {"g05": [("ext_cpp", "gen/src/write.rs", "indirect_return"), ("ext_rust", "macro/src/expand.rs", "indirect_return")]}

def item(text, head):
    m = re.search(r"^(?:pub(?:\(\w+\))? )?%s\b.*?^}\n" % head, text, re.M | re.S)
    if not m:
        raise ValueError(f"no item `{head}`")
    return m.group(0)

def gen_modules(out, harnesses):
    """Parts of /repo/gen/src that other harnesses need: cfg.rs as it is, next to the types it uses from mod.rs."""
    if "g08" not in harnesses:
        return []
    top = (REPO / "gen/src/mod.rs").read_text()
    cfg = redirect((REPO / "gen/src/cfg.rs").read_text())
    (out / "src" / "gen").mkdir()
    (out / "src" / "gen" / "cfg.rs").write_text(re.sub(r"^(fn|enum|struct|const|static) ", r"pub(crate) \1 ", cfg.replace("pub(super)", "pub(crate)"), flags=re.M))
    others = [n for n in re.findall(r"^(?:pub(?:\(\w+\))? )?(?:fn|enum|struct|const|static) (\w+)", cfg, re.M)]
    body = item(cfg, "fn try_eval")
    body = body[body.index("fn try_eval"):].replace("fn try_eval(", "fn try_eval_body(", 1)
    uses = "".join(l + "\n" for l in cfg.splitlines() if l.startswith("use "))
    (out / "src" / "gen" / "body.rs").write_text(uses + f"use super::cfg::{{{', '.join(others)}}};\npub(crate) " + body)
    (out / "src" / "gen.rs").write_text("pub(crate) mod cfg;\n#[cfg(kani)] pub(crate) mod body;\n" + item(top, "trait CfgEvaluator") + item(top, "enum CfgResult"))
    return ["pub(crate) mod gen;"]

SIGNATURE = {"g07": ("syntax/toposort.rs", "visit", "fn visit<'a>(cx: &mut Errors, strct: &'a Struct, sorted: &mut Vec<&'a Struct>, marks: &mut Map<*const Struct, Mark>, types: &Types<'a>,) -> Result<(), ()> {")}

def squeeze(s):
    return re.sub(r"\s", "", s).replace(",)", ")")

def function_body(out, harnesses, mods, found):
    """A recursive free function under the name `*_body` in `ext_*.rs`: its recursive calls go to the function itself, which harnesses replace by its contract."""
    for h in harnesses:
        if h not in SIGNATURE:
            continue
        f, fn, sig = SIGNATURE[h]
        text = redirect((REPO / f).read_text())
        m = re.search(r"^(?:pub(?:\(\w+\))? )?(fn %s\b.*?^}\n)" % fn, text, re.M | re.S)
        found[h] = bool(m) and squeeze(m.group(1)).startswith(squeeze(sig))
        if not found[h]:
            continue
        uses = "".join(l + "\n" for l in text.splitlines() if l.startswith("use "))
        stem = pathlib.Path(f).stem
        others = [n for n in re.findall(r"^(?:pub(?:\(\w+\))? )?(?:fn|enum|struct|const|static) (\w+)", text, re.M)]
        uses += f"use crate::syntax::{stem}::{{{', '.join(others)}}};\n"
        (out / "src" / f"ext_{fn}.rs").write_text(uses + "pub(crate) " + m.group(1).replace(f"fn {fn}", f"fn {fn}_body", 1))
        mods.append(f"#[cfg(kani)] pub(crate) mod ext_{fn};")
        (out / "src" / f).write_text(re.sub(r"^(fn|enum|struct|const|static) ", r"pub(crate) \1 ", text, flags=re.M))   # visibility only

BODY = {"g05": [("syntax/pod.rs", "is_guaranteed_pod")]}

def with_helpers(text, fn):
    """The free function `fn` and the free functions of the same file it calls, directly or not."""
    free = {m.group(1): m.group(0) for m in re.finditer(r"^(?:pub(?:\(\w+\))? )?fn (\w+)\b.*?^}\n", text, re.M | re.S)}
    want, todo = [], [fn]
    while todo:
        n = todo.pop()
        if n in free and n not in want:
            want.append(n)
            todo += re.findall(r"\b(\w+)\(", free[n])
    if fn not in want:
        return ""
    return "\n".join(re.sub(r"^(?:pub(?:\(\w+\))? )?fn ", "pub(crate) fn ", free[n]) for n in want)

def extract(out, harnesses):
    mods, found = [], {}
    for h in harnesses:
        for mod, f, fn in EXTRACT.get(h, ()):
            text = with_helpers((REPO / f).read_text(), fn)
            found[h] = found.get(h, True) and bool(text)
            if text:
                (out / "src" / (mod + ".rs")).write_text("use crate::syntax::*;\nuse crate::syntax::types::Types;\n" + text)
                mods.append(f"#[cfg(kani)] pub(crate) mod {mod};")
    for h in harnesses:   # the body of a recursive function under another name, so that its recursive calls go through the contract
        for f, fn in BODY.get(h, ()):
            text = (out / "src" / f).read_text()
            m = re.search(r"^    (?:pub(?:\(\w+\))? )?(fn %s\(.*?^    }\n)" % fn, text, re.M | re.S)
            head = m and re.findall(r"^(impl.*\{)\n", text[:m.start()], re.M)
            found[h] = found.get(h, True) and bool(head)
            if not head:
                continue
            uses = "".join(l + "\n" for l in text.splitlines() if l.startswith("use "))
            others = re.findall(r"^(?:pub(?:\(\w+\))? )?(?:fn|enum|struct|const|static) (\w+)", text, re.M)
            if others:
                uses += f"use crate::syntax::{pathlib.Path(f).stem}::{{{', '.join(others)}}};\n"
            (out / "src" / "ext_body.rs").write_text(uses + head[-1] + "\n    pub(crate) " + m.group(1).replace(f"fn {fn}(", f"fn {fn}_body(", 1) + "}\n")
            (out / "src" / f).write_text(re.sub(r"^((?:    )?)(fn|enum|struct|const|static) ", r"\1pub(crate) \2 ", text, flags=re.M))   # visibility only
            mods.append("#[cfg(kani)] pub(crate) mod ext_body;")
    function_body(out, harnesses, mods, found)
    return mods if all(found.values()) else [], {h for h, ok in found.items() if not ok}

def keep_found(text, ok):
    """Obligations over extracted functions are dropped when the functions are no longer there under that name."""
    return text if ok else re.sub(r"// BEGIN EXTRACTED.*?// END EXTRACTED", "", text, flags=re.S)

DEALLOC = "#[kani::stub(std::alloc::dealloc, crate::h_build::no_dealloc)]"

def never_freed(text):
    """Harness data lives in static pools, so freeing must do nothing."""
    text = "".join(l for l in text.splitlines(True) if l.strip() != DEALLOC)
    return text.replace("#[kani::proof]", "#[kani::proof]\n" + DEALLOC)

def droppable(prefix):
    """Whether obligations remain when those on extracted functions are dropped."""
    text = (VERIF / "gen" / "harness" / (prefix.rstrip("_") + ".rs")).read_text()
    return "// BEGIN EXTRACTED" in text and "#[kani::proof]" in keep_found(text, False)

def prep(out, harnesses, drop=False):
    out = pathlib.Path(out).absolute()
    if out.exists():
        shutil.rmtree(out)
    (out / "src" / "syntax").mkdir(parents=True)
    G = VERIF / "gen"
    for f in sorted((REPO / "syntax").glob("*.rs")):
        src = G / "overlay" / f.name if f.name in OVERLAY else f
        text = redirect(src.read_text())
        if f.name == "mod.rs":   # visibility only: contracts name every module
            text = re.sub(r"^mod (\w+);", r"pub(crate) mod \1;", text, flags=re.M)
        (out / "src" / "syntax" / f.name).write_text(text)
    (out / "src" / "mock.rs").write_text((G / "overlay" / "mock.rs").read_text())
    mods, lost = extract(out, harnesses)
    try:
        mods += gen_modules(out, harnesses)
    except (OSError, ValueError):   # no such function any more
        lost = lost | {"g08"}
    if drop:   # see droppable
        mods, lost = [], set(harnesses)
    for h in ["build.rs"] + [h + ".rs" for h in harnesses]:
        (out / "src" / ("h_" + h)).write_text(never_freed(open_up(keep_found((G / "harness" / h).read_text(), h[:-3] not in lost))))
        mods.append(f"#[cfg(kani)] pub(crate) mod h_{h[:-3]};")
    (out / "src" / "lib.rs").write_text(
        "#![cfg_attr(kani, feature(allocator_api))]\n#![allow(dead_code, unused, non_upper_case_globals)]\n"
        "#[allow(unused_macros)]\n"
        "macro_rules! format { ($($t:tt)*) => { ::std::string::String::new() } }\n"
        "pub mod mock;\npub mod syntax;\n" + "\n".join(mods) + "\n")
    (out / "Cargo.toml").write_text(f'''[package]
name = "gen-contracts"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
proc-macro2 = {{ path = "{G}/mock/proc-macro2" }}
quote = {{ path = "{G}/mock/quote" }}
syn = {{ path = "{G}/mock/syn" }}
[lints.rust]
unexpected_cfgs = "allow"
''')
    return out

if __name__ == "__main__":
    print(prep(sys.argv[1], sys.argv[2:]))
