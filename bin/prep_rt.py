#!/usr/bin/env python3
"""Mechanical overlay of /repo/src for the Kani runtime engine.

Every file of /repo/src is copied verbatim; the only edit is that one line

    #[cfg(kani)] #[path = "<contracts>"] pub(crate) mod verif_contracts;

is appended to the files listed in ATTACH, which gives the contract module
(a child module) access to the private functions it specifies.  Nothing of the
copied text is dropped or rewritten."""
import os, re, shutil, sys, pathlib
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

ATTACH = {
    "unique_ptr.rs": "r02_unique_ptr.rs",
    "cxx_vector.rs": "r01_cxx_vector.rs",
    "shared_ptr.rs": "r03_shared_ptr.rs",
    "cxx_string.rs": "r04_cxx_string.rs",
    "rust_vec.rs": "r05_reprs.rs",
    "symbols/rust_string.rs": "r05_sym_string.rs",
    "symbols/rust_str.rs": "r05_sym_str.rs",
    "symbols/rust_slice.rs": "r05_sym_slice.rs",
    "symbols/rust_vec.rs": "r05_sym_vec.rs",
    "result.rs": "r06_result.rs",
    "symbols/exception.rs": "r06_exception.rs",
    "unwind.rs": "r06_unwind.rs",
}

HARNESS = re.compile(r'(#\[kani::proof[^\n]*\n(?:[ \t]*#\[[^\n]*\n)*[ \t]*)(?:pub(?:\([a-z]+\))? )?fn ')
MOD = re.compile(r'^([ \t]*)mod (\$?\w+) \{', re.M)

def open_up(text):
    """Make harnesses and their modules reachable, so that a counterexample test
    can call them (contract files only, never the code under test)."""
    return MOD.sub(r'\1pub(crate) mod \2 {', HARNESS.sub(r'\1pub(crate) fn ', text))

def prep(out, prefix=""):
    out = pathlib.Path(out).absolute()
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    shutil.copytree(REPO / "src", out / "src")
    (out / "contracts").mkdir()
    for f in sorted((VERIF / "rt" / "contracts").glob("*.rs")):
        (out / "contracts" / f.name).write_text(open_up(f.read_text()))
    for f, mod in ATTACH.items():
        if not mod.startswith(prefix):
            continue
        p = out / "src" / f
        if not p.exists():
            raise SystemExit(f"overlay: {f} is gone from /repo/src")
        with open(p, "a") as h:
            h.write(f'\n#[cfg(kani)] #[path = "{out}/contracts/{mod}"] pub(crate) mod verif_contracts;\n')
    with open(out / "src" / "lib.rs", "a") as h:
        h.write(f'\n#[cfg(kani)] #[path = "{out}/contracts/ghost.rs"] pub(crate) mod verif_ghost;\n')
    (out / "build.rs").write_text(
        'fn main() {\n'
        '    for c in ["built_with_cargo","compile_error_if_alloc","compile_error_if_std",'
        '"cxx_experimental_no_alloc","error_in_core","seek_relative","skip_ui_tests","verif_thorough"] {\n'
        '        println!("cargo:rustc-check-cfg=cfg({})", c);\n    }\n'
        '    println!("cargo:rustc-cfg=error_in_core");\n'
        '    println!("cargo:rustc-cfg=seek_relative");\n'
        '    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { println!("cargo:rustc-cfg=verif_thorough"); }\n}\n')
    (out / "Cargo.toml").write_text(f'''[package]
name = "cxx"
version = "1.0.156"
edition = "2021"
build = "build.rs"
[features]
default = ["std"]
alloc = []
std = ["alloc", "foldhash/std"]
[dependencies]
cxxbridge-macro = {{ path = "{REPO}/macro" }}
foldhash = {{ version = "0.1", default-features = false }}
[workspace]
''')
    shutil.copy(VERIF / "rt" / "Cargo.lock", out / "Cargo.lock")
    return out

if __name__ == "__main__":
    prep(sys.argv[1])
