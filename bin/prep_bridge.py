#!/usr/bin/env python3
"""Prepares the bridge corpus crate: the real macro (a verbatim copy of /repo/macro
plus one wrapper attribute that appends reachability markers to its output), the
real runtime (verbatim copy of /repo/src), and the generated corpus."""
import os, pathlib, re, shutil, subprocess, sys
import prep_rt
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

WRAPPER = r'''
/// Verification wrapper: runs the real attribute, then adds, next to every function
/// the expansion exports under a symbol, an impl that makes the function reachable.
#[proc_macro_attribute]
pub fn verif_bridge(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut seen = Vec::new();
    let out = verif_walk(bridge(args, input).into(), &mut seen);
    let vs = seen.iter();
    quote::quote!(#out pub mod reach { #(pub struct #vs;)* }).into()
}
fn verif_walk(ts: proc_macro2::TokenStream, seen: &mut Vec<proc_macro2::Ident>) -> proc_macro2::TokenStream {
    use proc_macro2::{Delimiter, Group, Ident, Span, TokenTree};
    let mut out = Vec::new();
    let mut pre = proc_macro2::TokenStream::new();
    let mut sym: Option<String> = None;
    let mut was_fn = false;
    for tt in ts {
        let tt = match tt {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    let s = g.to_string();
                    if let Some(at) = s.find("export_name") {
                        if let Some(a) = s[at..].find('"') {
                            let rest = &s[at + a + 1..];
                            sym = rest.find('"').map(|b| rest[..b].to_owned());
                        }
                    }
                }
                let mut n = Group::new(g.delimiter(), verif_walk(g.stream(), seen));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            TokenTree::Ident(i) => {
                if was_fn {
                    if let Some(s) = sym.take() {
                        let v = Ident::new(&format!("V_{}", s.replace('$', "_")), Span::call_site());
                        pre.extend(quote::quote!(impl crate::Reach for crate::reach::#v { fn reach() { core::hint::black_box(#i as *const ()); } }));
                        seen.push(v);
                    }
                }
                was_fn = i == "fn";
                out.push(TokenTree::Ident(i));
                continue;
            }
            tt => tt,
        };
        was_fn = false;
        out.push(tt);
    }
    pre.extend(out);
    pre
}
'''

def prep(out, gen=None):
    out = pathlib.Path(out).absolute()
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    prep_rt.prep(out / "cxx", "none")
    shutil.copytree(REPO / "macro", out / "macro", symlinks=False, ignore=shutil.ignore_patterns("target", "LICENSE*", "README*"))
    for extra in ("build.rs",):
        p = out / "macro" / extra
        if p.exists(): p.unlink()
    with open(out / "macro" / "src" / "lib.rs", "a") as h:
        h.write(WRAPPER)
    c = (out / "macro" / "Cargo.toml").read_text()
    c = re.sub(r"\[dev-dependencies\].*?(?=^\[)", "", c, flags=re.M | re.S)
    (out / "macro" / "Cargo.toml").write_text(c)
    t = (out / "cxx" / "Cargo.toml").read_text()
    t = t.replace(f'path = "{REPO}/macro"', 'path = "../macro"').replace("[workspace]\n", "")
    (out / "cxx" / "Cargo.toml").write_text(t)
    (out / "cxx" / "Cargo.lock").unlink()
    subprocess.run([sys.executable, str(VERIF / "bridge" / (gen or "gen.py")), str(out / "src")], check=True)
    lib = (out / "src" / "lib.rs").read_text().replace("#[cxx::bridge", "#[cxxbridge_macro::verif_bridge")
    (out / "src" / "lib.rs").write_text(prep_rt.open_up(lib))
    (out / "Cargo.toml").write_text('''[package]
name = "corpus"
version = "0.1.0"
edition = "2021"
[dependencies]
cxx = { path = "cxx" }
cxxbridge-macro = { path = "macro" }
[workspace]
''')
    shutil.copy(VERIF / "rt" / "Cargo.lock", out / "Cargo.lock")
    return out

if __name__ == "__main__":
    prep(sys.argv[1])
