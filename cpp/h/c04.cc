#include "/repo/src/cxx.cc"
#include "rust_vec.h"
struct Boom {};
namespace g { static int made, throws; static const void *made_at; static bool may_throw; }
struct Elem {
  std::uint64_t a; std::uint32_t b;
  Elem(std::uint64_t a, std::uint32_t b) : a(a), b(b) { made(); }
  Elem(const Elem &o) : a(o.a), b(o.b) { made(); }
  Elem(Elem &&o) : a(o.a), b(o.b) { o.a = 0xdead; made(); }
  void made() { if (g::may_throw && nondet_bool()) { g::throws++; throw Boom(); } g::made++; g::made_at = this; }
};
using V = rust::Vec<Elem>;
namespace rust { inline namespace cxxbridge1 {
template <> Vec<Elem>::Vec() noexcept { gv::news++; gv::fresh(this, alignof(Elem), 0, 0); }
template <> void Vec<Elem>::drop() noexcept { gv::drops++; gv::v[gv::handle(this)].live = false; }
template <> std::size_t Vec<Elem>::size() const noexcept { return gv::v[gv::handle(this)].len; }
template <> std::size_t Vec<Elem>::capacity() const noexcept { return gv::v[gv::handle(this)].cap; }
template <> const Elem *Vec<Elem>::data() const noexcept { return reinterpret_cast<const Elem *>(gv::v[gv::handle(this)].data); }
template <> void Vec<Elem>::reserve_total(std::size_t new_cap) noexcept { gv::reserve(this, new_cap, sizeof(Elem)); }
template <> void Vec<Elem>::set_len(std::size_t len) noexcept {
  gv::V &x = gv::v[gv::handle(this)];
  vassert(len <= x.cap, "the length never exceeds the capacity");
  vassert(len <= x.len + 1, "the length is only extended over constructed elements");
  if (len == x.len + 1) vassert(g::made_at == reinterpret_cast<const void *>(x.data + x.len * sizeof(Elem)), "the element past the end is constructed before the length covers it");
  x.len = len;
}
template <> void Vec<Elem>::truncate(std::size_t len) { gv::V &x = gv::v[gv::handle(this)]; gv::truncs++; gv::trunc_len = len; if (len < x.len) x.len = len; }
} }
struct Raw { alignas(8) unsigned char b[24]; V &v() { return *reinterpret_cast<V *>(b); } int h() { return gv::handle(b); } };
static int given(Raw &r) {   // any Rust vector of at most 2^40 elements
  std::size_t len = nondet_u64(), cap = nondet_u64(); std::uintptr_t data = nondet_u64();
  vassume(len <= cap && cap < (std::size_t(1) << 40) && data != 0);
  return gv::fresh(r.b, data, len, cap);
}
static std::uintptr_t at(const void *p) { return reinterpret_cast<std::uintptr_t>(p); }
extern "C" void c04_access() {
  Raw r; int h = given(r); V &v = r.v(); const V &c = v;
  std::uintptr_t d = gv::v[h].data; std::size_t n = gv::v[h].len;
  vassert(c.size() == n && c.empty() == (n == 0) && c.capacity() == gv::v[h].cap, "size, empty and capacity are Rust's");
  vassert(at(v.data()) == d && at(c.data()) == d, "data is Rust's buffer");
  std::uintptr_t e = d + n * sizeof(Elem);
  vassert(at(v.begin().operator->()) == d && at(v.end().operator->()) == e, "iteration spans exactly the elements");
  vassert(at(c.begin().operator->()) == d && at(c.end().operator->()) == e && at(c.cbegin().operator->()) == d && at(c.cend().operator->()) == e, "const iteration spans exactly the elements");
  vassert(at((v.begin() + 3).operator->()) == d + 3 * sizeof(Elem), "iterators step by the element size");
  DONE;
}
extern "C" void c04_index() {
  Raw r; int h = given(r); V &v = r.v(); const V &c = v;
  std::uintptr_t d = gv::v[h].data; std::size_t n = gv::v[h].len, i = nondet_u64();
  if (i < n) {
    std::uintptr_t e = d + i * sizeof(Elem);
    vassert(at(&v[i]) == e && at(&c[i]) == e && at(&v.at(i)) == e && at(&c.at(i)) == e, "indexing addresses the element");
    vassert(at(&v.front()) == d && at(&c.front()) == d, "front is the first element");
    vassert(at(&v.back()) == d + (n - 1) * sizeof(Elem) && at(&c.back()) == d + (n - 1) * sizeof(Elem), "back is the last element");
    vcover("in range");
  } else {
    int threw = 0;
    try { v.at(i); } catch (const std::out_of_range &) { threw++; }
    try { c.at(i); } catch (const std::out_of_range &) { threw++; }
    vassert(threw == 2, "at throws out_of_range for a position outside the vector");
    vcover("out of range");
  }
  DONE;
}
template <typename F> static void push(F f, std::uint64_t a, std::uint32_t b) {
  Raw r; std::size_t len = nondet_u64(); vassume(len < (std::size_t(1) << 40));
  bool room = nondet_bool();
  int h = gv::fresh(r.b, 0, len, len);
  void *slot = symobj(sizeof(Elem));
  if (room) gv::v[h].cap = len + 1;
  gv::v[h].data = at(slot) - len * sizeof(Elem);
  if (!room) forget(slot);
  bool threw = false;
  try { f(r.v()); } catch (const Boom &) { threw = true; }
  vassert(gv::v[h].live && gv::drops == 0, "pushing never drops the vector");
  if (threw) { vassert(gv::v[h].len == len && g::made == 0, "if constructing the element throws, the length is unchanged"); vcover("throws"); }
  else {
    const Elem *e = reinterpret_cast<const Elem *>(gv::v[h].data + len * sizeof(Elem));
    vassert(gv::v[h].len == len + 1, "the length grows by one");
    vassert(gv::reserves >= 1 && gv::v[h].cap >= len + 1, "room is reserved first");
    vassert(g::made == 1 && g::made_at == e && e->a == a && e->b == b, "one element is constructed past the old end from the given arguments");
    vcover(room ? "room" : "grow");
  }
  DONE;
}
extern "C" void c04_push_copy() { g::may_throw = false; std::uint64_t a = nondet_u64(); std::uint32_t b = nondet_u32(); Elem x(a, b); g::made = 0; g::may_throw = true; push([&](V &v) { v.push_back(const_cast<const Elem &>(x)); }, a, b); vassert(x.a == a, "the source of a copy is unchanged"); }
extern "C" void c04_push_move() { g::may_throw = false; std::uint64_t a = nondet_u64(); std::uint32_t b = nondet_u32(); Elem x(a, b); g::made = 0; g::may_throw = true; push([&](V &v) { v.push_back(std::move(x)); }, a, b); if (g::made) vassert(x.a == 0xdead, "the source is moved from"); }
extern "C" void c04_emplace() { std::uint64_t a = nondet_u64(); std::uint32_t b = nondet_u32(); g::may_throw = true; push([&](V &v) { v.emplace_back(a, b); }, a, b); }
extern "C" void c04_forward() {
  Raw r; given(r); V &v = r.v(); std::size_t k = nondet_u64(), len = gv::v[0].len;
  v.truncate(k); vassert(gv::truncs == 1 && gv::trunc_len == k, "truncate forwards the length");
  gv::v[0].len = len;
  v.clear(); vassert(gv::truncs == 2 && gv::trunc_len == 0, "clear truncates to nothing");
  std::size_t c = nondet_u64(); vassume(c <= gv::v[0].cap);
  v.reserve(c); vassert(gv::reserves == 1 && gv::reserve_cap == c, "reserve forwards the capacity");
  vassert(gv::drops == 0 && gv::live() == 1, "nothing is dropped");
  DONE;
}
extern "C" void c04_lifecycle() {
  Raw a, b; new (a.b) V();
  vassert(gv::news == 1 && gv::live() == 1, "a default vector is a new Rust vector");
  int h = given(b);
  { V m(std::move(b.v())); vassert(gv::handle(&m) == h && b.h() != h && gv::v[b.h()].len == 0, "moving transfers the vector and leaves the source valid and empty"); }
  vassert(gv::drops == 1 && !gv::v[h].live, "the new owner drops it once");
  a.v().~V(); b.v().~V();
  vassert(gv::live() == 0 && gv::drops == 3, "every vector is dropped exactly once");
  DONE;
}
extern "C" void c04_move_assign() {
  Raw a, b; int h = given(a), k = given(b);
  V &r = (a.v() = std::move(b.v()));
  vassert(&r == &a.v() && a.h() == k && !gv::v[h].live && gv::drops == 1, "the old vector is dropped and the new one taken");
  vassert(b.h() != k && gv::v[b.h()].len == 0 && gv::live() == 2, "the source is valid and empty");
  DONE;
}
extern "C" void c04_swap() {
  Raw a, b; int h = given(a), k = given(b);
  a.v().swap(b.v()); vassert(a.h() == k && b.h() == h, "member swap exchanges the vectors");
  swap(a.v(), b.v()); vassert(a.h() == h && b.h() == k && gv::drops == 0 && gv::live() == 2, "free swap exchanges the vectors");
  DONE;
}
extern "C" void c04_bitcopy() {
  Raw a, b; int h = given(a);
  new (b.b) V(rust::unsafe_bitcopy, a.v());
  vassert(b.h() == h && gv::live() == 1 && gv::news == 0, "a bit copy is the same vector");
  DONE;
}
// copying: vectors of up to 3 elements, any of whose copies may throw
static std::uint64_t src_a[3]; static std::uint32_t src_b[3];
static int source(Raw &r) {
  gv::small = true;
  std::size_t n = nondet_u64(); vassume(n <= 3); n = concretize(n);
  Elem *p = static_cast<Elem *>(symobj(4 * sizeof(Elem)));
  for (std::size_t i = 0; i < n; i++) { src_a[i] = nondet_u64(); src_b[i] = nondet_u32(); p[i].a = src_a[i]; p[i].b = src_b[i]; }
  return gv::fresh(r.b, at(p), n, 4);
}
static void same(const V &v, std::size_t n, const char *) {
  vassert(v.size() == n, "the copy has as many elements");
  for (std::size_t i = 0; i < n; i++) vassert(v[i].a == src_a[i] && v[i].b == src_b[i], "each element of the copy equals the original, in order");
}
extern "C" void c04_copy_bounded() {
  Raw a; int h = source(a); std::size_t n = gv::v[h].len;
  g::may_throw = true;
  bool threw = false;
  try {
    V c(const_cast<const V &>(a.v()));
    same(c, n, ""); vassert(g::made == static_cast<int>(n) && gv::handle(&c) != h && gv::live() == 2, "each element is copied once into a new vector");
  } catch (const Boom &) { threw = true; }
  vassert(threw == (g::throws == 1), "an element's exception is passed on");
  vassert(gv::live() == 1 && gv::v[h].live && gv::v[h].len == n, "the new vector is dropped exactly once; the source is untouched");
  vcover(threw ? "throws" : "returns");
  DONE;
}
extern "C" void c04_copy_assign_bounded() {
  Raw a, b; int k = gv::fresh(b.b, alignof(Elem), 0, 0), h = source(a); std::size_t n = gv::v[h].len;
  g::may_throw = true;
  bool threw = false;
  try { V &r = (b.v() = const_cast<const V &>(a.v())); vassert(&r == &b.v() && !gv::v[k].live, "the old vector is dropped"); same(b.v(), n, ""); }
  catch (const Boom &) { threw = true; }
  vassert(gv::live() == 2 && gv::v[h].live, "both vectors are alive, and nothing is lost");
  b.v().~V(); a.v().~V();
  vassert(gv::live() == 0, "every vector is dropped exactly once");
  vcover(threw ? "throws" : "returns");
  DONE;
}
extern "C" void c04_self_assign() {
  Raw a; int h = given(a);
  V &r = (a.v() = const_cast<const V &>(a.v()));
  vassert(&r == &a.v() && a.h() == h && gv::v[h].live && gv::drops == 0 && gv::news == 0, "self-assignment changes nothing");
  DONE;
}
extern "C" void c04_init_list_bounded() {
  gv::small = true;
  g::may_throw = false;
  for (int i = 0; i < 3; i++) { src_a[i] = nondet_u64(); src_b[i] = nondet_u32(); }
  { V v{Elem(src_a[0], src_b[0]), Elem(src_a[1], src_b[1]), Elem(src_a[2], src_b[2])}; same(v, 3, ""); vassert(gv::reserves >= 1, "room is reserved"); }
  { V v(std::initializer_list<Elem>{}); same(v, 0, ""); }
  vassert(gv::live() == 0, "every vector is dropped exactly once");
  DONE;
}
// the runtime's specialisations call the entry points of their own element type
namespace gf { static const char *op; static const void *self; static std::size_t arg; static int calls; static std::uint64_t ret; }
#define RUST_VEC_STUBS(RUST_TYPE, CXX_TYPE)                                                                           \
  void cxxbridge1$rust_vec$##RUST_TYPE##$new(rust::Vec<CXX_TYPE> *p) noexcept { gf::calls++; gf::op = "new" #RUST_TYPE; gf::self = p; }     \
  void cxxbridge1$rust_vec$##RUST_TYPE##$drop(rust::Vec<CXX_TYPE> *p) noexcept { gf::calls++; gf::op = "drop" #RUST_TYPE; gf::self = p; }   \
  std::size_t cxxbridge1$rust_vec$##RUST_TYPE##$len(const rust::Vec<CXX_TYPE> *p) noexcept { gf::calls++; gf::op = "len" #RUST_TYPE; gf::self = p; return gf::ret; } \
  std::size_t cxxbridge1$rust_vec$##RUST_TYPE##$capacity(const rust::Vec<CXX_TYPE> *p) noexcept { gf::calls++; gf::op = "capacity" #RUST_TYPE; gf::self = p; return gf::ret; } \
  const CXX_TYPE *cxxbridge1$rust_vec$##RUST_TYPE##$data(const rust::Vec<CXX_TYPE> *p) noexcept { gf::calls++; gf::op = "data" #RUST_TYPE; gf::self = p; return reinterpret_cast<const CXX_TYPE *>(gf::ret); } \
  void cxxbridge1$rust_vec$##RUST_TYPE##$reserve_total(rust::Vec<CXX_TYPE> *p, std::size_t n) noexcept { gf::calls++; gf::op = "reserve_total" #RUST_TYPE; gf::self = p; gf::arg = n; } \
  void cxxbridge1$rust_vec$##RUST_TYPE##$set_len(rust::Vec<CXX_TYPE> *p, std::size_t n) noexcept { gf::calls++; gf::op = "set_len" #RUST_TYPE; gf::self = p; gf::arg = n; } \
  void cxxbridge1$rust_vec$##RUST_TYPE##$truncate(rust::Vec<CXX_TYPE> *p, std::size_t n) noexcept { gf::calls++; gf::op = "truncate" #RUST_TYPE; gf::self = p; gf::arg = n; }
extern "C" { FOR_EACH_RUST_VEC(RUST_VEC_STUBS) }
static bool eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
#define IS(OP, T) vassert(gf::calls == 1 && gf::self == p && eq(gf::op, OP #T), "the entry point of this element type and operation is called, once, on this vector")
#define RUST_VEC_CHECK(T, CXX_TYPE)                                                                                   \
  extern "C" void c04_ops_##T() {                                                                                     \
    alignas(8) unsigned char b[24];                                                                                   \
    using V = rust::Vec<CXX_TYPE>;                                                                                    \
    V *p = reinterpret_cast<V *>(b);                                                                                  \
    std::size_t k = nondet_u64(); gf::ret = nondet_u64();                                                             \
    new (p) V(); IS("new", T); gf::calls = 0;                                                                         \
    vassert(static_cast<const V *>(p)->size() == gf::ret, "size is Rust's"); IS("len", T); gf::calls = 0;             \
    vassert(static_cast<const V *>(p)->capacity() == gf::ret, "capacity is Rust's"); IS("capacity", T); gf::calls = 0; \
    vassert(reinterpret_cast<std::uint64_t>(static_cast<const V *>(p)->data()) == gf::ret, "data is Rust's"); IS("data", T); gf::calls = 0; \
    p->reserve_total(k); IS("reserve_total", T); vassert(gf::arg == k, "with the given capacity"); gf::calls = 0;     \
    p->set_len(k); IS("set_len", T); vassert(gf::arg == k, "with the given length"); gf::calls = 0;                   \
    p->truncate(k); IS("truncate", T); vassert(gf::arg == k, "with the given length"); gf::calls = 0;                 \
    p->~V(); IS("drop", T);                                                                                           \
    DONE;                                                                                                             \
  }
FOR_EACH_RUST_VEC(RUST_VEC_CHECK)
// rust::Slice entry points used by the iterators
extern "C" {
void cxxbridge1$slice$new(void *self, const void *ptr, std::size_t len) noexcept { vassert(ptr != nullptr, "no null slice"); std::uintptr_t *r = static_cast<std::uintptr_t *>(self); r[0] = reinterpret_cast<std::uintptr_t>(ptr); r[1] = len; }
void *cxxbridge1$slice$ptr(const void *self) noexcept { return reinterpret_cast<void *>(static_cast<const std::uintptr_t *>(self)[0]); }
std::size_t cxxbridge1$slice$len(const void *self) noexcept { return static_cast<const std::uintptr_t *>(self)[1]; }
}
