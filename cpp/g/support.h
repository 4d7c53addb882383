// Ghost state and value generators for the generated-C++ contracts.
#pragma once
#include "bridge.h"
#include "rust_string.h"
#include "rust_vec.h"
typedef std::uint64_t u64;
struct Id { u64 a, b, c, d; bool operator==(const Id &o) const { return a == o.a && b == o.b && c == o.c && d == o.d; } };
struct PtrLen { void *ptr; std::size_t len; };
struct Fat { std::uintptr_t ptr, len; };
static struct { int calls; u64 pre, post; Id id; u64 key; bool threw; int mode; std::size_t live; int boxes, box_drops; bool box_live[6]; unsigned sw; } G;
alignas(16) static unsigned char SINK[64];
static unsigned char BOXES[6][16];
static std::size_t live() {
  std::size_t n = heap_live();
  for (int i = 0; i < g::texts; i++) n += g::text[i].live && g::text[i].cap;
  for (int i = 0; i < gv::n; i++) n += gv::v[i].live && gv::v[i].cap;
  for (int i = 0; i < G.boxes; i++) n += G.box_live[i];
  return n;
}
template <class T> static u64 addr(T *p) { return reinterpret_cast<u64>(p); }
static u64 any_addr() { u64 a = nondet_u64(); vassume(a != 0); return a; }
// what the Rust side owns
template <class T> static T *new_box() { vassert(G.boxes < 6, "ghost table"); int i = G.boxes++; G.box_live[i] = true; return reinterpret_cast<T *>(BOXES[i]); }
static void free_box(u64 p) {
  for (int i = 0; i < G.boxes; i++) if (addr(BOXES[i]) == p) { vassert(G.box_live[i], "a Box is dropped once"); G.box_live[i] = false; G.box_drops++; return; }
  vassert(false, "a Box given to Rust is one Rust made");
}
struct Err : std::exception { const char *what() const noexcept override { return "boom"; } };
static void maybe_throw() {
  if (G.mode == 1) throw Err();
  if (G.mode == 2) throw 5;
  if (G.mode == 3 && nondet_bool()) { Err e; g::cs = e.what(); g::cs_len = nondet_u64(); G.threw = true; throw e; }
}
template <class T> struct V {   // scalars and enums
  static T make() { u64 x = nondet_u64(); T t; __builtin_memcpy(&t, &x, sizeof(T)); return t; }
  static Id id(const T &t) { u64 x = 0; __builtin_memcpy(&x, &t, sizeof(T)); return Id{x, 0, 0, 0}; }
};
template <> struct V<bool> { static bool make() { return nondet_bool(); } static Id id(bool b) { return Id{b, 0, 0, 0}; } };
template <class T> struct V<T &> { static T &make() { return *reinterpret_cast<T *>(any_addr()); } static Id id(T &t) { return Id{reinterpret_cast<u64>(&t), 0, 0, 0}; } };
template <class T> struct V<T *> { static T *make() { return reinterpret_cast<T *>(nondet_u64()); } static Id id(T *t) { return Id{addr(t), 0, 0, 0}; } };
template <class T> struct Slot { alignas(16) unsigned char b[sizeof(T)]; T *p() { return reinterpret_cast<T *>(b); } T &t() { return *p(); } };
template <> struct V<rust::String> {
  static rust::String make() { Slot<rust::String> s; g::fresh_text(s.p(), reinterpret_cast<const char *>(any_addr()), nondet_u64(), 1, -2); return rust::String(rust::unsafe_bitcopy, s.t()); }
  static Id id(const rust::String &s) { const u64 *w = reinterpret_cast<const u64 *>(&s); return Id{w[0], w[1], w[2], 0}; }
};
template <class T> struct V<rust::Vec<T>> {
  static rust::Vec<T> make() { Slot<rust::Vec<T>> s; gv::fresh(s.p(), any_addr(), nondet_u64(), 1); return rust::Vec<T>(rust::unsafe_bitcopy, s.t()); }
  static Id id(const rust::Vec<T> &s) { const u64 *w = reinterpret_cast<const u64 *>(&s); return Id{w[0], w[1], w[2], 0}; }
};
template <class T> struct V2 { static T make() { Slot<T> s; u64 *w = reinterpret_cast<u64 *>(s.b); w[0] = any_addr(); w[1] = nondet_u64(); return s.t(); } static Id id(const T &t) { const u64 *w = reinterpret_cast<const u64 *>(&t); return Id{w[0], w[1], 0, 0}; } };
template <> struct V<rust::Str> : V2<rust::Str> {};
template <class T> struct V<rust::Slice<T>> : V2<rust::Slice<T>> {};
template <class T> struct V<rust::Box<T>> { static rust::Box<T> make() { return rust::Box<T>::from_raw(new_box<T>()); } static Id id(const rust::Box<T> &b) { return Id{*reinterpret_cast<const u64 *>(&b), 0, 0, 0}; } };
template <class T> struct V<std::unique_ptr<T>> { static std::unique_ptr<T> make() { return std::unique_ptr<T>(new T()); } static Id id(const std::unique_ptr<T> &p) { return Id{addr(p.get()), 0, 0, 0}; } };
template <class T> struct V<std::shared_ptr<T>> { static std::shared_ptr<T> make() { return std::shared_ptr<T>(new T()); } static Id id(const std::shared_ptr<T> &p) { const u64 *w = reinterpret_cast<const u64 *>(&p); return Id{w[0], w[1], static_cast<u64>(p.use_count()), 0}; } };
static std::shared_ptr<n::C> *KEEP;
template <class T> struct V<std::weak_ptr<T>> { static std::weak_ptr<T> make() { std::shared_ptr<T> s(new T()); std::weak_ptr<T> w(s); return w; } static Id id(const std::weak_ptr<T> &p) { const u64 *w = reinterpret_cast<const u64 *>(&p); return Id{w[0], w[1], static_cast<u64>(p.use_count()), 0}; } };
template <> struct V<n::S> { static n::S make() { return n::S{nondet_u32(), V<rust::Box<n::R>>::make(), V<rust::String>::make()}; } static Id id(const n::S &s) { return Id{s.a, V<rust::Box<n::R>>::id(s.b).a, V<rust::String>::id(s.c).a, 0}; } };
template <> struct V<n::Pod> { static n::Pod make() { return n::Pod{nondet_u32(), nondet_u16()}; } static Id id(const n::Pod &s) { return Id{s.a, s.b, 0, 0}; } };
template <> struct V<n::Small> { static n::Small make() { return n::Small{static_cast<n::E>(nondet_u8()), static_cast<n::E>(nondet_u8())}; } static Id id(const n::Small &s) { return Id{static_cast<u64>(s.e), static_cast<u64>(s.f), 0, 0}; } };
template <> struct V<n::TrivialAlias> { static n::TrivialAlias make() { return n::TrivialAlias{nondet_u32(), nondet_u16()}; } static Id id(const n::TrivialAlias &s) { return Id{s.a, s.b, 0, 0}; } };
template <> struct V<std::array<std::uint8_t, 3>> { static std::array<std::uint8_t, 3> make() { return {{nondet_u8(), nondet_u8(), nondet_u8()}}; } static Id id(const std::array<std::uint8_t, 3> &a) { return Id{a._M_elems[0], a._M_elems[1], a._M_elems[2], 0}; } };
template <> struct V<std::array<n::Pod, 2>> { static std::array<n::Pod, 2> make() { return {{V<n::Pod>::make(), V<n::Pod>::make()}}; } static Id id(const std::array<n::Pod, 2> &a) { return Id{a._M_elems[0].a, a._M_elems[0].b, a._M_elems[1].a, a._M_elems[1].b}; } };
template <class T> static void destroy(T *p) { p->~T(); }
// Rust takes the content of a String or Vec argument and leaves an empty one
static void empty(rust::String *s) { g::fresh_text(s, nullptr, 0, 0, -1); }
template <class T> static void empty(rust::Vec<T> *s) { gv::fresh(s, 1, 0, 0); }
// contracts of the Rust side of Box and Vec
#define BOX(M, T) \
  extern "C" T *cxxbridge1$box$##M##$alloc() noexcept { return new_box<T>(); } \
  extern "C" void cxxbridge1$box$##M##$dealloc(T *p) noexcept { free_box(addr(p)); } \
  extern "C" void cxxbridge1$box$##M##$drop(rust::Box<T> *b) noexcept { free_box(*reinterpret_cast<u64 *>(b)); }
BOX(n$R, n::R) BOX(n$Pod, n::Pod) BOX(n$Counted, n::Counted)
#define VEC(M, T, SIZE) \
  extern "C" void cxxbridge1$rust_vec$##M##$new(rust::Vec<T> *v) noexcept { gv::news++; gv::fresh(v, 1, 0, 0); } \
  extern "C" void cxxbridge1$rust_vec$##M##$drop(rust::Vec<T> *v) noexcept { gv::drops++; gv::v[gv::handle(v)].live = false; } \
  extern "C" std::size_t cxxbridge1$rust_vec$##M##$len(const rust::Vec<T> *v) noexcept { return gv::v[gv::handle(v)].len; } \
  extern "C" std::size_t cxxbridge1$rust_vec$##M##$capacity(const rust::Vec<T> *v) noexcept { return gv::v[gv::handle(v)].cap; } \
  extern "C" const T *cxxbridge1$rust_vec$##M##$data(const rust::Vec<T> *v) noexcept { return reinterpret_cast<const T *>(gv::v[gv::handle(v)].data); } \
  extern "C" void cxxbridge1$rust_vec$##M##$reserve_total(rust::Vec<T> *v, std::size_t n) noexcept { gv::V &x = gv::v[gv::handle(v)]; gv::reserves++; gv::reserve_cap = n; if (n > x.cap) x.cap = n; } \
  extern "C" void cxxbridge1$rust_vec$##M##$set_len(rust::Vec<T> *v, std::size_t n) noexcept { gv::v[gv::handle(v)].len = n; } \
  extern "C" void cxxbridge1$rust_vec$##M##$truncate(rust::Vec<T> *v, std::size_t n) noexcept { gv::V &x = gv::v[gv::handle(v)]; gv::truncs++; gv::trunc_len = n; if (n < x.len) x.len = n; }
VEC(u8, std::uint8_t, 1) VEC(string, rust::String, 24) VEC(n$Pod, n::Pod, 8) VEC(n$E, n::E, 1) VEC(n$R, n::R, 1)
// the Rust side copies the message of a C++ exception
static struct { int calls; const char *ptr; std::size_t len; PtrLen out; } X;
extern "C" PtrLen cxxbridge1$exception(const char *ptr, std::size_t len) noexcept {
  X.calls++; X.ptr = ptr; X.len = len;
  X.out = PtrLen{reinterpret_cast<void *>(any_addr()), nondet_u64()};
  return X.out;
}
static PtrLen rust_error() {   // the Rust side hands over a message it allocated with cxxbridge1$error
  X.calls++; X.len = nondet_u64(); vassume(X.len < (u64(1) << 38));
  X.out = PtrLen{new char[X.len + 1], X.len};
  return X.out;
}
