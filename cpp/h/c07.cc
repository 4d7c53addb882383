// The C++ runtime entry points Rust calls, over the real libstdc++ string, vector, unique_ptr and shared_ptr code.
#include "/repo/src/cxx.cc"
#include "verif.h"
static const std::size_t BIG = std::size_t(1) << 38;
typedef const std::uint8_t *Bytes;
// ---- std::string ---------------------------------------------------------------------------------------------
struct Raw { std::uintptr_t w[4]; std::string &s() { return *reinterpret_cast<std::string *>(w); } const char *buf() const { return reinterpret_cast<const char *>(w[0]); } };
static_assert(sizeof(Raw) == sizeof(std::string), "libstdc++ layout");
// an arbitrary live string on the heap, of any length and capacity
static void heap_string(Raw &r, std::size_t len, std::size_t cap) {
  vassume(len <= cap && cap >= 16 && cap < BIG);
  r.w[0] = reinterpret_cast<std::uintptr_t>(::operator new(cap + 1)); r.w[1] = len; r.w[2] = cap;
  reinterpret_cast<char *>(r.w[0])[len] = 0;
}
// an arbitrary short string, held inside the object
static void short_string(Raw &r, std::size_t len) {
  vassume(len < 16);
  r.w[0] = reinterpret_cast<std::uintptr_t>(&r.w[2]); r.w[1] = len; r.w[2] = nondet_u64(); r.w[3] = nondet_u64();
  reinterpret_cast<char *>(r.w[0])[len] = 0;
}
extern "C" void c07_string_init() {
  std::size_t len = nondet_u64(), k = nondet_u64(); vassume(len < BIG);
  Bytes src = static_cast<Bytes>(symobj(len));
  Raw r; r.w[0] = nondet_u64(); r.w[1] = nondet_u64(); r.w[2] = nondet_u64(); r.w[3] = nondet_u64();
  cxxbridge1$cxx_string$init(&r.s(), src, len);
  vassert(r.s().size() == len, "the string has the given length");
  vassert(r.buf()[len] == 0, "it is terminated");
  if (k < len) { vassert(static_cast<std::uint8_t>(r.s()[k]) == src[k], "it has the given bytes"); vcover("bytes"); }
  vassert(r.s().capacity() >= len && heap_live() == (r.buf() == reinterpret_cast<char *>(&r.w[2]) ? 0u : 1u), "it owns its buffer");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "destroying releases everything once");
  DONE;
}
extern "C" void c07_string_access() {
  Raw r; std::size_t len = nondet_u64();
  bool heap = nondet_bool();
  if (heap) heap_string(r, len, nondet_u64()); else short_string(r, len);
  vassert(cxxbridge1$cxx_string$data(r.s()) == r.buf() && cxxbridge1$cxx_string$length(r.s()) == len, "data and length are the string's own");
  vcover(heap ? "heap" : "short");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "destroying releases everything once");
  DONE;
}
extern "C" void c07_string_clear() {
  Raw r; std::size_t len = nondet_u64();
  bool heap = nondet_bool();
  if (heap) heap_string(r, len, nondet_u64()); else short_string(r, len);
  cxxbridge1$cxx_string$clear(r.s());
  vassert(r.s().size() == 0 && r.buf()[0] == 0, "clearing leaves the empty string");
  vcover(heap ? "clear heap" : "clear short");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "and nothing is lost");
  DONE;
}
static void reserve() {
  Raw r; std::size_t len = nondet_u64(), n = nondet_u64(), k = nondet_u64(); vassume(n < BIG && k < len);
  heap_string(r, len, nondet_u64());
  char old = r.buf()[k];
  std::size_t cap0 = r.s().capacity();
  cxxbridge1$cxx_string$reserve_total(r.s(), n);
  vassert(r.s().capacity() >= n && r.s().capacity() >= len, "at least the requested capacity is available");
  vassert(r.s().size() == len && r.buf()[k] == old && r.buf()[len] == 0, "the text is unchanged");
  vcover(n > cap0 ? "grows" : "enough");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "nothing is lost");
  DONE;
}
extern "C" void c07_string_reserve_heap() { reserve(); }
extern "C" void c07_string_reserve_short() {
  Raw r; std::size_t len = nondet_u64(), n = nondet_u64(); vassume(n < BIG && len < 16); len = concretize(len);
  short_string(r, len);
  char old[16]; for (std::size_t i = 0; i < len; i++) old[i] = r.buf()[i];
  cxxbridge1$cxx_string$reserve_total(r.s(), n);
  vassert(r.s().capacity() >= n && r.s().capacity() >= len && r.s().size() == len, "at least the requested capacity is available");
  for (std::size_t i = 0; i < len; i++) vassert(r.buf()[i] == old[i], "the text is unchanged");
  vassert(r.buf()[len] == 0, "and terminated");
  vcover(n > 15 ? "short grows" : "short enough");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "nothing is lost");
  DONE;
}
static void push() {
  Raw r; std::size_t len = nondet_u64(), n = nondet_u64(), k = nondet_u64(); vassume(n < BIG && k < len + n);
  heap_string(r, len, nondet_u64());
  Bytes src = static_cast<Bytes>(symobj(n));
  std::uint8_t want = k < len ? static_cast<std::uint8_t>(r.buf()[k]) : src[k - len];
  bool grows = len + n > r.s().capacity();
  cxxbridge1$cxx_string$push(r.s(), src, n);
  vassert(r.s().size() == len + n, "the length grows by what is appended");
  vassert(static_cast<std::uint8_t>(r.buf()[k]) == want, "the old bytes stay and the new ones follow");
  vassert(r.buf()[len + n] == 0, "it is terminated");
  vcover(grows ? "append grows" : "append in place");
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "nothing is lost");
  DONE;
}
extern "C" void c07_string_push_heap() { push(); }
static void push_short(bool fits) {
  Raw r; std::size_t len = nondet_u64(), n = nondet_u64(); vassume(len < 16 && n < BIG && (len + n < 16) == fits); len = concretize(len);
  if (fits) n = concretize(n);
  short_string(r, len);
  char old[16]; for (std::size_t i = 0; i < len; i++) old[i] = r.buf()[i];
  Bytes src = static_cast<Bytes>(symobj(n));
  cxxbridge1$cxx_string$push(r.s(), src, n);
  vassert(r.s().size() == len + n && r.buf()[len + n] == 0, "the length grows by what is appended");
  for (std::size_t i = 0; i < len; i++) vassert(r.buf()[i] == old[i], "the old bytes stay");
  if (fits) for (std::size_t i = 0; i < n; i++) vassert(static_cast<std::uint8_t>(r.buf()[len + i]) == src[i], "the new bytes follow");
  else { std::size_t k = nondet_u64(); vassume(k < n); vassert(static_cast<std::uint8_t>(r.buf()[len + k]) == src[k], "the new bytes follow"); }
  cxxbridge1$cxx_string$destroy(&r.s());
  vassert(heap_live() == 0, "nothing is lost");
  DONE;
}
extern "C" void c07_string_push_short() { push_short(true); }
extern "C" void c07_string_push_short_grow() { push_short(false); }

// ---- unique_ptr ------------------------------------------------------------------------------------------------
template <typename T, typename N, typename R, typename G, typename L, typename D>
static void unique(T *obj, N null, R raw, G get, L release, D drop) {
  alignas(8) unsigned char b[8]; auto *p = reinterpret_cast<std::unique_ptr<T> *>(b);
  *reinterpret_cast<std::uint64_t *>(b) = nondet_u64();
  null(p);
  vassert(get(*p) == nullptr, "null makes a null pointer"); vassert(release(*p) == nullptr, "which releases nothing");
  drop(p);
  std::size_t live = heap_live();
  raw(p, obj);
  vassert(get(*p) == obj && heap_live() == live, "a pointer adopts exactly the given object");
  vassert(release(*p) == obj && heap_live() == live, "release hands over that object, alive");
  vassert(get(*p) == nullptr, "and leaves null");
  drop(p);
  vassert(heap_live() == live, "dropping a released pointer touches nothing");
  raw(p, obj);
  drop(p);
  vassert(heap_live() == 0, "dropping destroys the object and everything in it, once");
  DONE;
}
extern "C" void c07_unique_string() {
  Raw *r = new Raw; std::size_t len = nondet_u64();
  if (nondet_bool()) heap_string(*r, len, nondet_u64()); else short_string(*r, len);
  unique(&r->s(), cxxbridge1$unique_ptr$std$string$null, cxxbridge1$unique_ptr$std$string$raw, cxxbridge1$unique_ptr$std$string$get,
         cxxbridge1$unique_ptr$std$string$release, cxxbridge1$unique_ptr$std$string$drop);
}
// ---- vector ------------------------------------------------------------------------------------------------------
template <typename T> struct VRaw { T *b, *e, *c; std::vector<T> &v() { return *reinterpret_cast<std::vector<T> *>(this); } };
template <typename T> static void any_vector(VRaw<T> &r, std::size_t len, std::size_t cap) {
  vassume(len <= cap && cap < (BIG >> 5));
  r.b = cap ? static_cast<T *>(::operator new(cap * sizeof(T))) : nullptr;
  r.e = r.b + len; r.c = r.b + cap;
}
template <typename T> static bool same(const T &a, const T &b) { const unsigned char *x = reinterpret_cast<const unsigned char *>(&a), *y = reinterpret_cast<const unsigned char *>(&b); bool r = true; for (std::size_t i = 0; i < sizeof(T); i++) r &= x[i] == y[i]; return r; }
template <typename T> struct Bits { unsigned char b[sizeof(T)]; T &t() { return *reinterpret_cast<T *>(b); } };
template <typename T, typename S, typename G> static void vec_access(S size, G get) {
  VRaw<T> r; std::size_t len = nondet_u64(), cap = nondet_u64(), k = nondet_u64();
  any_vector(r, len, cap);
  vassert(size(r.v()) == len, "the size is the vector's");
  if (k < len) { vassert(get(&r.v(), k) == r.b + k, "an index addresses its element"); vcover("element"); }
  DONE;
}
template <typename T, typename N, typename S> static void vec_new(N make, S size) {
  std::vector<T> *v = make();
  vassert(size(*v) == 0 && heap_live() == 1, "a new vector is empty and on the heap");
  delete v;
  vassert(heap_live() == 0, "and is a plain C++ vector");
  DONE;
}
template <typename T> struct VecBuf { VRaw<T> r; };
#define VECTOR(T, CXX)                                                                                                \
  extern "C" void c07_vec_access_##T() { vec_access<CXX>(cxxbridge1$std$vector$##T##$size, cxxbridge1$std$vector$##T##$get_unchecked); } \
  extern "C" void c07_vec_new_##T() { vec_new<CXX>(cxxbridge1$std$vector$##T##$new, cxxbridge1$std$vector$##T##$size); }
FOR_EACH_STD_VECTOR(VECTOR)
template <typename T, typename P> static void vec_push(P push, bool room) {
  VRaw<T> r; std::size_t len = nondet_u64(), k = nondet_u64(); vassume(len < (BIG >> 5) && k <= len);
  std::size_t cap = len;
  if (room) { cap = nondet_u64(); vassume(cap > len); }
  any_vector(r, len, cap);
  Bits<T> *x = static_cast<Bits<T> *>(symobj(sizeof(T)));
  Bits<T> want; if (k < len) want = reinterpret_cast<Bits<T> *>(r.b)[k]; else want = *x;
  push(&r.v(), &x->t());
  vassert(static_cast<std::size_t>(r.e - r.b) == len + 1 && r.c >= r.e, "the vector grows by one element");
  vassert(same(reinterpret_cast<Bits<T> *>(r.b)[k].t(), want.t()), "the old elements stay and the new one is last");
  vcover(k < len ? "old" : "new");
  vassert(heap_live() == 1, "one buffer remains");
  DONE;
}
template <typename T, typename P> static void vec_pop(P pop) {
  VRaw<T> r; std::size_t len = nondet_u64(), cap = nondet_u64(), k = nondet_u64(); vassume(len > 0 && k < len - 1);
  any_vector(r, len, cap);
  Bits<T> keep = reinterpret_cast<Bits<T> *>(r.b)[k], last = reinterpret_cast<Bits<T> *>(r.b)[len - 1];
  Bits<T> *out = static_cast<Bits<T> *>(symobj(sizeof(T)));
  T *base = r.b;
  pop(&r.v(), &out->t());
  vassert(r.b == base && static_cast<std::size_t>(r.e - r.b) == len - 1, "the vector shrinks by one element");
  vassert(same(out->t(), last.t()), "the last element is moved out");
  vassert(same(reinterpret_cast<Bits<T> *>(r.b)[k].t(), keep.t()), "the others stay");
  vassert(heap_live() == 1, "one buffer remains");
  DONE;
}
#define VECTOR_TRIVIAL(T, CXX)                                                                                        \
  extern "C" void c07_vec_push_##T() { vec_push<CXX>(cxxbridge1$std$vector$##T##$push_back, true); }                  \
  extern "C" void c07_vec_push_grow_##T() { vec_push<CXX>(cxxbridge1$std$vector$##T##$push_back, false); }            \
  extern "C" void c07_vec_pop_##T() { vec_pop<CXX>(cxxbridge1$std$vector$##T##$pop_back); }
FOR_EACH_TRIVIAL_STD_VECTOR(VECTOR_TRIVIAL)
#define VECTOR_UNIQUE(T, CXX)                                                                                         \
  extern "C" void c07_vec_unique_##T() {                                                                              \
    VRaw<CXX> *r = new VRaw<CXX>; any_vector(*r, nondet_u64(), nondet_u64());                                         \
    unique(&r->v(), cxxbridge1$unique_ptr$std$vector$##T##$null, cxxbridge1$unique_ptr$std$vector$##T##$raw, cxxbridge1$unique_ptr$std$vector$##T##$get, \
           cxxbridge1$unique_ptr$std$vector$##T##$release, cxxbridge1$unique_ptr$std$vector$##T##$drop);              \
  }
FOR_EACH_TRIVIAL_STD_VECTOR(VECTOR_UNIQUE)
extern "C" void c07_vec_unique_string_bounded() {
  std::size_t n = nondet_u64(); vassume(n <= 2); n = concretize(n);
  VRaw<std::string> *r = new VRaw<std::string>; any_vector<std::string>(*r, n, 2);
  for (std::size_t i = 0; i < n; i++) { std::size_t len = nondet_u64(); Raw &s = reinterpret_cast<Raw *>(r->b)[i]; if (nondet_bool()) heap_string(s, len, nondet_u64()); else short_string(s, len); }
  unique(&r->v(), cxxbridge1$unique_ptr$std$vector$string$null, cxxbridge1$unique_ptr$std$vector$string$raw, cxxbridge1$unique_ptr$std$vector$string$get,
         cxxbridge1$unique_ptr$std$vector$string$release, cxxbridge1$unique_ptr$std$vector$string$drop);
}
// ---- shared_ptr, weak_ptr: any reference counts ---------------------------------------------------------------
struct PRaw { void *p; std::_Sp_counted_base<> *c; };
template <typename T> struct Shared { PRaw r; Shared() { r.p = reinterpret_cast<void *>(nondet_u64()); r.c = reinterpret_cast<std::_Sp_counted_base<> *>(nondet_u64()); } std::shared_ptr<T> &s() { return *reinterpret_cast<std::shared_ptr<T> *>(&r); } std::weak_ptr<T> &w() { return *reinterpret_cast<std::weak_ptr<T> *>(&r); } };
static int use(const PRaw &r) { return r.c->_M_use_count; }
static int weak(const PRaw &r) { return r.c->_M_weak_count; }
// counts as if that many other owners existed; the weak count includes the one all strong owners share
template <typename T, typename U> static int given(Shared<T> &a, U uninit, int &strong, int &weaks) {
  T *p = uninit(&a.s());
  vassert(a.r.p == p && use(a.r) == 1 && weak(a.r) == 1 && heap_live() == 2, "a new shared pointer is the only owner of new storage");
  unsigned char *q = reinterpret_cast<unsigned char *>(p); q[0] = nondet_u8(); q[sizeof(T) - 1] = nondet_u8();
  new (p) T();   // Rust writes the value into the storage
  strong = static_cast<int>(nondet_u32()); weaks = static_cast<int>(nondet_u32());
  vassume(strong >= 1 && weaks >= 1 && strong < 0x7ffffff0 && weaks < 0x7ffffff0);
  a.r.c->_M_use_count = strong; a.r.c->_M_weak_count = weaks;
  return 0;
}
template <typename T> static void finish(PRaw r, int strong, int weaks) {   // counts are as expected; leave
  vassert(use(r) == strong, "the strong count is exact"); vassert(weak(r) == weaks, "the weak count is exact");
  DONE;
}
#define SHARED(T, CXX)                                                                                                \
  extern "C" void c07_shared_null_##T() {                                                                             \
    Shared<CXX> a, b, c, d;                                                                                           \
    cxxbridge1$std$shared_ptr$##T##$null(&a.s()); vassert(a.r.p == nullptr && a.r.c == nullptr && cxxbridge1$std$shared_ptr$##T##$get(a.s()) == nullptr, "null is null"); \
    cxxbridge1$std$shared_ptr$##T##$clone(a.s(), &b.s()); vassert(b.r.p == nullptr && b.r.c == nullptr, "a clone of null is null"); \
    cxxbridge1$std$weak_ptr$##T##$downgrade(a.s(), &c.w()); vassert(c.r.c == nullptr, "a downgraded null is null");   \
    cxxbridge1$std$weak_ptr$##T##$upgrade(c.w(), &d.s()); vassert(d.r.p == nullptr && d.r.c == nullptr, "an upgraded null is null"); \
    cxxbridge1$std$shared_ptr$##T##$drop(&a.s()); cxxbridge1$std$shared_ptr$##T##$drop(&b.s()); cxxbridge1$std$weak_ptr$##T##$drop(&c.w()); cxxbridge1$std$shared_ptr$##T##$drop(&d.s()); \
    Shared<CXX> e, f; cxxbridge1$std$weak_ptr$##T##$null(&e.w()); vassert(e.r.c == nullptr, "null is null");          \
    cxxbridge1$std$weak_ptr$##T##$clone(e.w(), &f.w()); vassert(f.r.c == nullptr, "a clone of null is null");         \
    cxxbridge1$std$weak_ptr$##T##$drop(&e.w()); cxxbridge1$std$weak_ptr$##T##$drop(&f.w());                           \
    vassert(heap_live() == 0, "nothing is allocated"); DONE;                                                         \
  }                                                                                                                   \
  extern "C" void c07_shared_clone_##T() {                                                                            \
    Shared<CXX> a, b; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                 \
    vassert(cxxbridge1$std$shared_ptr$##T##$get(a.s()) == r.p, "get is the object");                                  \
    cxxbridge1$std$shared_ptr$##T##$clone(a.s(), &b.s());                                                             \
    vassert(a.r.p == r.p && a.r.c == r.c && b.r.p == r.p && b.r.c == r.c, "a clone shares the same object");          \
    finish<CXX>(r, s + 1, w);                                                                                         \
  }                                                                                                                   \
  extern "C" void c07_shared_downgrade_##T() {                                                                        \
    Shared<CXX> a, b; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                 \
    cxxbridge1$std$weak_ptr$##T##$downgrade(a.s(), &b.w());                                                           \
    vassert(b.r.p == r.p && b.r.c == r.c && a.r.c == r.c, "a weak pointer observes the same object");                 \
    finish<CXX>(r, s, w + 1);                                                                                         \
  }                                                                                                                   \
  extern "C" void c07_shared_drop_##T() {                                                                             \
    Shared<CXX> a; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                    \
    cxxbridge1$std$shared_ptr$##T##$drop(&a.s());                                                                     \
    if (s > 1) { vassert(heap_live() == 2, "other owners keep the object"); vcover("owners left"); finish<CXX>(r, s - 1, w); } \
    else if (w > 1) { vassert(heap_live() == 1 && !is_live(r.p), "the last owner destroys the object; observers keep the counts"); vcover("observers left"); finish<CXX>(r, 0, w - 1); } \
    else { vassert(heap_live() == 0, "the last pointer releases everything, once"); vcover("last"); DONE; }           \
  }                                                                                                                   \
  extern "C" void c07_weak_clone_##T() {                                                                              \
    Shared<CXX> a, b; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                 \
    if (nondet_bool()) { s = 0; r.c->_M_use_count = 0; }                                                              \
    cxxbridge1$std$weak_ptr$##T##$clone(a.w(), &b.w());                                                               \
    vassert(b.r.p == r.p && b.r.c == r.c && a.r.c == r.c, "a clone observes the same object");                        \
    finish<CXX>(r, s, w + 1);                                                                                         \
  }                                                                                                                   \
  extern "C" void c07_weak_upgrade_##T() {                                                                            \
    Shared<CXX> a, b; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                 \
    if (nondet_bool()) { s = 0; r.c->_M_use_count = 0; }                                                              \
    cxxbridge1$std$weak_ptr$##T##$upgrade(a.w(), &b.s());                                                             \
    vassert(a.r.p == r.p && a.r.c == r.c, "the weak pointer is unchanged");                                           \
    if (s == 0) { vassert(b.r.p == nullptr && b.r.c == nullptr, "a dead object upgrades to null"); vcover("dead"); finish<CXX>(r, 0, w); } \
    else { vassert(b.r.p == r.p && b.r.c == r.c, "a live object upgrades to an owner of it"); vcover("alive"); finish<CXX>(r, s + 1, w); } \
  }                                                                                                                   \
  extern "C" void c07_weak_drop_##T() {                                                                               \
    Shared<CXX> a; int s, w; given(a, cxxbridge1$std$shared_ptr$##T##$uninit, s, w); PRaw r = a.r;                    \
    bool dead = nondet_bool();                                                                                        \
    if (dead) { s = 0; r.c->_M_use_count = 0; } else vassume(w > 1);                                                  \
    cxxbridge1$std$weak_ptr$##T##$drop(&a.w());                                                                       \
    if (w > 1) { vassert(heap_live() == 2, "nothing is destroyed"); finish<CXX>(r, s, w - 1); }                       \
    else { vassert(!is_live(r.c), "the last observer of a dead object releases the counts"); vcover("counts released"); DONE; } \
  }
FOR_EACH_SHARED_PTR(SHARED)
