#include "/repo/include/cxx.h"
#include "verif.h"
// A pointee whose constructors may throw, with ghost state: which addresses hold a constructed value.
namespace g {
static const int N = 6;
static const void *addr[N]; static bool allocd[N], built[N]; static int slots;
static int allocs, deallocs, drops, throws;
static int find(const void *p) { for (int i = 0; i < slots; i++) if (addr[i] == p) return i; return -1; }
static std::size_t live() { std::size_t n = 0; for (int i = 0; i < slots; i++) n += allocd[i]; return n; }
}
struct Boom {};
struct Probe {
  std::uint64_t v; std::uint32_t w;
  Probe(std::uint64_t v, std::uint32_t w) : v(v), w(w) { made(); }
  Probe(const Probe &o) : v(o.v), w(o.w) { made(); }
  Probe(Probe &&o) : v(o.v), w(o.w) { o.v = 0; made(); }
  ~Probe() { int h = g::find(this); if (h >= 0) { vassert(false, "a value inside a Rust box is never destroyed from C++"); } }
  void made() {
    int h = g::find(this);
    if (h < 0) return;
    vassert(g::allocd[h] && !g::built[h], "a value is constructed in a live, fresh Rust allocation");
    if (nondet_bool()) { g::throws++; throw Boom(); }
    g::built[h] = true;
  }
};
namespace rust { inline namespace cxxbridge1 {
template <> Probe *Box<Probe>::allocation::alloc() noexcept {
  vassert(g::slots < g::N, "ghost table");
  g::allocs++;
  Probe *p = static_cast<Probe *>(symobj(sizeof(Probe)));
  g::addr[g::slots] = p; g::allocd[g::slots] = true; g::built[g::slots] = false; g::slots++;
  return p;
}
template <> void Box<Probe>::allocation::dealloc(Probe *p) noexcept {
  int h = g::find(p);
  vassert(h >= 0 && g::allocd[h], "only a live Rust allocation is deallocated, once");
  vassert(!g::built[h], "an allocation holding a value is dropped, not just deallocated");
  g::allocd[h] = false; g::deallocs++;
}
template <> void Box<Probe>::drop() noexcept {
  int h = g::find(this->ptr);
  vassert(h >= 0 && g::allocd[h], "only a live Rust box is dropped, once");
  vassert(g::built[h], "only a constructed value is dropped");
  g::allocd[h] = false; g::built[h] = false; g::drops++;
}
} }
using B = rust::Box<Probe>;
static Probe *raw(std::uint64_t v) {   // a box handed over by Rust
  Probe *p = static_cast<Probe *>(symobj(sizeof(Probe)));
  g::addr[g::slots] = p; g::allocd[g::slots] = true; g::built[g::slots] = true; g::slots++;
  p->v = v;
  return p;
}
static bool holds(const B &b, std::uint64_t v) { int h = g::find(b.operator->()); return h >= 0 && g::allocd[h] && g::built[h] && (*b).v == v; }
template <typename F> static void create(std::uint64_t v, F f) {
  bool threw = false;
  try {
    B b = f();
    vassert(holds(b, v) && g::live() == 1, "the box holds exactly the value, in one live allocation");
    vassert(g::drops == 0 && g::deallocs == 0, "nothing is dropped while the box is alive");
  } catch (const Boom &) { threw = true; }
  vassert(threw == (g::throws == 1), "a throwing constructor's exception is passed on");
  vassert(g::allocs == 1 && g::live() == 0, "the allocation is released exactly once");
  vassert(g::drops == (threw ? 0 : 1) && g::deallocs == (threw ? 1 : 0), "a built value is dropped once; a failed construction only returns the memory");
  vcover(threw ? "throws" : "returns");
  DONE;
}
extern "C" void c05_copy_in() { std::uint64_t v = nondet_u64(); Probe src(v, 1); create(v, [&] { return B(const_cast<const Probe &>(src)); }); vassert(src.v == v, "the source of a copy is unchanged"); DONE; }
extern "C" void c05_move_in() { std::uint64_t v = nondet_u64(); Probe src(v, 1); create(v, [&] { return B(std::move(src)); }); DONE; }
extern "C" void c05_in_place() { std::uint64_t v = nondet_u64(); std::uint32_t w = nondet_u32(); create(v, [&] { B b = B::in_place(v, w); vassert(b->w == w, "every field is forwarded in order"); return b; }); }
extern "C" void c05_from_raw() {
  std::uint64_t v = nondet_u64(); Probe *p = raw(v);
  { B b = B::from_raw(p);
    vassert(b.operator->() == p && &*b == p && holds(b, v) && g::drops == 0, "adopting a raw pointer keeps it"); 
    const B &c = b; vassert(c.operator->() == p && &*c == p, "const access is to the same value"); }
  vassert(g::drops == 1 && g::live() == 0, "it is dropped exactly once");
  DONE;
}
extern "C" void c05_into_raw() {
  std::uint64_t v = nondet_u64(); Probe *p = raw(v);
  { B b = B::from_raw(p); Probe *q = b.into_raw(); vassert(q == p, "releasing gives the same pointer"); }
  vassert(g::drops == 0 && g::live() == 1 && p->v == v, "a released value is not dropped");
  DONE;
}
extern "C" void c05_move() {
  std::uint64_t v = nondet_u64(); Probe *p = raw(v);
  { B a = B::from_raw(p); B b(std::move(a)); vassert(b.operator->() == p && a.operator->() == nullptr, "moving transfers the pointer"); }
  vassert(g::drops == 1 && g::live() == 0, "only the new owner drops it");
  DONE;
}
extern "C" void c05_move_assign() {
  std::uint64_t v = nondet_u64(), w = nondet_u64(); Probe *p = raw(v), *q = raw(w);
  bool from_empty = nondet_bool();
  { B a = B::from_raw(p), b = B::from_raw(q);
    if (from_empty) { a.into_raw(); }
    B &r = (a = std::move(b));
    vassert(&r == &a && a.operator->() == q && b.operator->() == nullptr, "assignment transfers the pointer");
    vassert(g::drops == (from_empty ? 0 : 1) && holds(a, w), "the old value is dropped once"); }
  vassert(g::drops == (from_empty ? 1 : 2) && g::live() == (from_empty ? 1u : 0u), "each value is dropped exactly once");
  DONE;
}
extern "C" void c05_self_move_assign() {
  Probe *p = raw(nondet_u64());
  { B a = B::from_raw(p); a = std::move(a); }
  vassert(g::drops == 1 && g::live() == 0, "self-assignment drops at most once");
  DONE;
}
extern "C" void c05_swap() {
  Probe *p = raw(nondet_u64()), *q = raw(nondet_u64());
  { B a = B::from_raw(p), b = B::from_raw(q);
    a.swap(b); vassert(a.operator->() == q && b.operator->() == p && g::drops == 0, "member swap exchanges the values");
    swap(a, b); vassert(a.operator->() == p && b.operator->() == q && g::drops == 0, "free swap exchanges the values");
    std::swap(a, b); vassert(a.operator->() == q && b.operator->() == p && g::drops == 0, "std::swap exchanges the values"); }
  vassert(g::drops == 2 && g::live() == 0, "each is dropped exactly once");
  DONE;
}
