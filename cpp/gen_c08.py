#!/usr/bin/env python3
"""Writes the C++ side of the corpus bridge: corpus.h and the contracts of every generated function (c08.cc)."""
import pathlib, re, sys
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE.parent / "bridge"))
from forms import FORMS
PRIM = dict(bool="bool", u8="std::uint8_t", u16="std::uint16_t", u32="std::uint32_t", u64="std::uint64_t", usize="std::size_t", i8="std::int8_t", i16="std::int16_t",
            i32="std::int32_t", i64="std::int64_t", isize="rust::isize", f32="float", f64="double", c_char="char", String="rust::String", CxxString="std::string")
WRAP = dict(Box="rust::Box<%s>", Vec="rust::Vec<%s>", UniquePtr="std::unique_ptr<%s>", SharedPtr="std::shared_ptr<%s>", WeakPtr="std::weak_ptr<%s>", CxxVector="std::vector<%s>")
def cpp(t):
    if t in PRIM: return PRIM[t]
    if t == "&str": return "rust::Str"
    if m := re.fullmatch(r"&\[(.*)\]", t): return f"rust::Slice<const {cpp(m[1])}>"
    if m := re.fullmatch(r"&mut \[(.*)\]", t): return f"rust::Slice<{cpp(m[1])}>"
    if m := re.fullmatch(r"Pin<&mut (.*)>|&mut (.*)", t): return f"{cpp(m[1] or m[2])} &"
    if m := re.fullmatch(r"&(.*)", t): return f"const {cpp(m[1])} &"
    if m := re.fullmatch(r"\*const (.*)", t): return f"const {cpp(m[1])} *"
    if m := re.fullmatch(r"\*mut (.*)", t): return f"{cpp(m[1])} *"
    if m := re.fullmatch(r"\[(.*); (\d+)\]", t): return f"std::array<{cpp(m[1])}, {m[2]}>"
    if m := re.fullmatch(r"(\w+)<(.*)>", t): return WRAP[m[1]] % cpp(m[2])
    return "n::" + t
def kind(t):
    if t == "&str" or t.startswith(("&[", "&mut [")): return "fat"
    if t.startswith(("&", "Pin<&")): return "ref"
    if t.startswith("Box<"): return "box"
    if t.startswith("UniquePtr<"): return "unique"
    if t == "String" or t.startswith("Vec<"): return "take"
    return "val"
def gen():
    decl, o = [], []
    for f in FORMS:
        n, T, k, ind = f["n"], cpp(f["t"]), kind(f["t"]), f["ind"]
        inner = re.match(r".*?<(.*)>$", T)[1] if k in ("box", "unique") else None
        aarg = f"{T} *" if ind else f"{inner} *" if inner else T                                    # as an argument across the boundary
        aret = f"{T[:-1].strip()} *" if k == "ref" else "Fat" if k == "fat" else f"{inner} *" if inner else T
        slot = aret if k in ("ref", "box", "unique") else T                                         # out-parameter
        raw = dict(box="into_raw", unique="release").get(k)
        give = f"s.t()" if not (ind or inner) else None
        decl.append(f"void ca_{n}(std::uint8_t pre, {T} x, std::uint16_t post);\n{T} cr_{n}(C &k);\n{T} ct_{n}(C &k);\n")
        vid = f"V<{T}>::id"
        bind = f"{T}v = V<{T}>::make();" if k == "ref" else f"{T} v = V<{T}>::make();"
        adopt = {"box": f"new (SINK) {T}({T}::from_raw(x));", "unique": f"new (SINK) {T}(x);"}.get(k)
        o.append(f'''
// ---- {f["t"]}
void n::ca_{n}(std::uint8_t pre, {T} x, std::uint16_t post) {{ G.calls++; G.pre = pre; G.post = post; G.id = {vid}(x); G.live = live(); maybe_throw(); }}
{T} n::cr_{n}(n::C &k) {{ G.calls++; G.key = addr(&k); {bind} G.id = {vid}(v); G.live = live(); maybe_throw(); return {"v" if k == "ref" else "std::move(v)"}; }}
{T} n::ct_{n}(n::C &k) {{ return n::cr_{n}(k); }}
extern "C" void n$cxxbridge1$ca_{n}(std::uint8_t pre, {aarg} x, std::uint16_t post) noexcept;
''')
        # C++ function taking the form
        if ind: pre, arg = f"Slot<{T}> s; new (s.b) {T}(V<{T}>::make()); Id id = {vid}(s.t());", "s.p()"
        elif inner: pre, arg = f"{T} v(V<{T}>::make()); Id id = {vid}(v); {inner} *raw = v.{raw}();" if k == "unique" else f"{T} v(V<{T}>::make()); Id id = {vid}(v); {inner} *raw = std::move(v).into_raw();", "raw"
        else: pre, arg = f"{bind} Id id = {vid}(v);", "v"
        o.append(f'''extern "C" void c08_arg_{n}() {{
  {pre}
  std::size_t l = live(); std::uint8_t pre = nondet_u8(); std::uint16_t post = nondet_u16();
  n$cxxbridge1$ca_{n}(pre, {arg}, post);
  vassert(G.calls == 1, "the C++ function is called exactly once");
  vassert(G.pre == pre && G.post == post, "neighbouring arguments keep value and position");
  vassert(G.id == id, "the argument arrives unchanged");
  vassert(G.live == l, "the function owns exactly what it was handed");
  vassert(live() == 0, "what was handed over is released exactly once");
  DONE;
}}
extern "C" void x01_arg_{n}() {{
  {pre} (void)id;
  G.mode = nondet_bool() ? 1 : 2;
  expect_terminate(true);
  n$cxxbridge1$ca_{n}(nondet_u8(), {arg}, nondet_u16());
  vassert(false, "an exception does not get past a function not declared to throw");
}}
''')
        # C++ function returning the form
        ret = "void" if ind else aret
        out = f", {T} *ret" if ind else ""
        o.append(f'extern "C" {ret} n$cxxbridge1$cr_{n}(n::C &k{out}) noexcept;\nextern "C" PtrLen n$cxxbridge1$ct_{n}(n::C &k, {slot} *ret) noexcept;\n')
        call = f"Slot<{T}> s; n$cxxbridge1$cr_{n}(k, s.p());" if ind else (f"Fat f = n$cxxbridge1$cr_{n}(k); Slot<{T}> s; __builtin_memcpy(s.b, &f, 16);" if k == "fat"
               else f"{aret} r = n$cxxbridge1$cr_{n}(k);")
        if ind or k == "fat": got, kill = f"{vid}(s.t())", "destroy(s.p());"
        elif k == "ref": got, kill = "(Id{addr(r), 0, 0, 0})", ""
        elif k == "box": got, kill = "(Id{addr(r), 0, 0, 0})", f"{{ auto b = {T}::from_raw(r); }}"
        elif k == "unique": got, kill = "(Id{addr(r), 0, 0, 0})", "delete r;"
        else: got, kill = f"{vid}(r)", ""
        got2 = f"{vid}(s.t())" if k in ("take", "val", "fat") else got.replace("addr(r)", "addr(s.t())")
        kill2 = "destroy(s.p());" if k in ("take", "val", "fat") else kill.replace("(r)", "(s.t())").replace("delete r", "delete s.t()")
        o.append(f'''extern "C" void c08_ret_{n}() {{
  n::C k;
  {call}
  vassert(G.calls == 1 && G.key == addr(&k), "the C++ function is called exactly once with its argument");
  vassert({got} == G.id, "the returned value is the one the function produced");
  vassert(live() == G.live, "nothing is destroyed or copied on the way");
  {kill}
  vassert(live() == 0, "the caller owns the returned value exactly once");
  DONE;
}}
extern "C" void x01_ret_{n}() {{
  n::C k;
  G.mode = nondet_bool() ? 1 : 2;
  expect_terminate(true);
  {call}
  vassert(false, "an exception does not get past a function not declared to throw");
}}
extern "C" void x01_try_{n}() {{
  n::C k; Slot<{slot}> s;
  G.mode = 2;
  expect_terminate(true);
  n$cxxbridge1$ct_{n}(k, s.p());
  vassert(false, "something other than a std::exception does not get past the boundary");
}}
extern "C" void c08_try_{n}() {{
  n::C k; Slot<{slot}> s; s.b[0] = nondet_u8(); unsigned char old = s.b[0];
  G.mode = 3;
  PtrLen r = n$cxxbridge1$ct_{n}(k, s.p());
  vassert(G.calls == 1 && G.key == addr(&k), "the C++ function is called exactly once with its argument");
  vassert(exc_live() == 0, "no exception is left");
  if (G.threw) {{
    vassert(X.calls == 1 && X.ptr == g::cs && X.len == g::cs_len, "the message is that of the exception");
    vassert(r.ptr == X.out.ptr && r.len == X.out.len, "and it is what the caller gets");
    vassert(s.b[0] == old && live() == 0, "a failed call leaves no value and loses nothing");
    vcover("threw");
  }} else {{
    vassert(X.calls == 0 && r.ptr == nullptr, "success is reported as success");
    vassert({got2} == G.id, "the success value is the one the function produced");
    vassert(live() == G.live, "nothing is destroyed or copied on the way");
    {kill2}
    vassert(live() == 0, "the caller owns the success value exactly once");
    vcover("returned");
  }}
  DONE;
}}
''')
        # Rust function taking the form
        if k == "take": body = f"new (SINK) {T}(rust::unsafe_bitcopy, *x); empty(x); G.id = {vid}(*reinterpret_cast<{T} *>(SINK));"
        elif ind: body = f"__builtin_memcpy(SINK, x, sizeof({T})); G.id = {vid}(*reinterpret_cast<{T} *>(SINK));"
        elif inner: body = f"G.id = Id{{addr(x), 0, 0, 0}}; {adopt}"
        else: body = f"G.id = {vid}(x);"
        kill3 = f"destroy(reinterpret_cast<{T} *>(SINK));" if ind or inner else ""
        mv = "v" if k in ("ref",) else "std::move(v)"
        o.append(f'''extern "C" void n$cxxbridge1$ra_{n}(std::uint8_t pre, {aarg} x, std::uint16_t post) noexcept {{ G.calls++; G.pre = pre; G.post = post; {body} }}
extern "C" void c08_rarg_{n}() {{
  {bind} Id id = {vid}(v); std::size_t l = live(); std::uint8_t pre = nondet_u8(); std::uint16_t post = nondet_u16();
  n::ra_{n}(pre, {mv}, post);
  vassert(G.calls == 1, "the Rust function is called exactly once");
  vassert(G.pre == pre && G.post == post, "neighbouring arguments keep value and position");
  vassert(G.id == id, "the argument arrives unchanged");
  vassert(live() == l, "Rust owns what it was handed, and only Rust does");
  {kill3}
  vassert(live() == 0, "what was handed over is released exactly once");
  DONE;
}}
''')
        # Rust function returning the form
        mk = f"{bind} G.id = {vid}(v); G.live = live();"
        move = {"ref": "&v", "box": "std::move(v).into_raw()", "unique": "v.release()"}.get(k, "std::move(v)")
        if ind: rr = f"extern \"C\" void n$cxxbridge1$rr_{n}(n::Key &k, {T} *ret) noexcept {{ G.calls++; G.key = addr(&k); {mk} new (ret) {T}(std::move(v)); }}"
        elif k == "fat": rr = f"extern \"C\" Fat n$cxxbridge1$rr_{n}(n::Key &k) noexcept {{ G.calls++; G.key = addr(&k); {mk} Fat f; __builtin_memcpy(&f, &v, 16); return f; }}"
        else: rr = f"extern \"C\" {aret} n$cxxbridge1$rr_{n}(n::Key &k) noexcept {{ G.calls++; G.key = addr(&k); {mk} return {move}; }}"
        o.append(rr + f'''
extern "C" PtrLen n$cxxbridge1$rt_{n}(n::Key &k, {slot} *ret) noexcept {{
  using Slot_ = {slot};
  G.calls++; G.key = addr(&k);
  if (nondet_bool()) {{ G.threw = true; return rust_error(); }}
  {mk} new (ret) Slot_({move}); return PtrLen{{nullptr, nondet_u64()}};
}}
''')
        res = f"{T}v = " if k == "ref" else f"{T} v = "
        o.append(f'''extern "C" void c08_rret_{n}() {{
  n::Key &k = *reinterpret_cast<n::Key *>(any_addr());
  {{ {res}n::rr_{n}(k);
    vassert(G.calls == 1 && G.key == addr(&k), "the Rust function is called exactly once with its argument");
    vassert({vid}(v) == G.id, "the returned value is the one the function produced");
    vassert(live() == G.live, "nothing is destroyed or copied on the way"); }}
  vassert(live() == 0, "C++ owns the returned value exactly once");
  DONE;
}}
extern "C" void c08_rtry_{n}() {{
  n::Key &k = *reinterpret_cast<n::Key *>(any_addr());
  bool caught = false;
  try {{
    {res}n::rt_{n}(k);
    vassert({vid}(v) == G.id, "the success value is the one the function produced");
    vassert(live() == G.live, "nothing is destroyed or copied on the way");
  }} catch (const rust::Error &e) {{
    caught = true;
    vassert(e.what() == X.out.ptr, "the exception carries the message of the error");
  }}
  vassert(G.calls == 1 && G.key == addr(&k), "the Rust function is called exactly once with its argument");
  vassert(caught == G.threw && X.calls == caught, "an error is thrown, and nothing else is");
  vassert(live() == 0 && exc_live() == 0, "C++ owns what it gets exactly once");
  vcover(caught ? "error" : "value");
  DONE;
}}
''')
    return decl, o
def main(out):
    out.mkdir(parents=True, exist_ok=True)
    decl, o = gen()
    (out / "corpus.h").write_text((HERE / "g/corpus.h").read_text().replace("//FUNCTIONS\n", "".join(decl)))
    (out / "c08.cc").write_text('#include "support.h"\n' + "".join(o) + (HERE / "g/special.cc").read_text())
if __name__ == "__main__": main(pathlib.Path(sys.argv[1]))
