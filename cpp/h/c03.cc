#include "/repo/src/cxx.cc"
#include "verif.h"
// ---- contracts of the Rust entry points (discharged on the Rust side by R05) --------------------------------
namespace g {
static int news;
static void *init_self; static const void *init_ptr; static std::size_t init_len;
static std::uintptr_t cur_ptr; static std::size_t cur_len;
}
extern "C" {
void cxxbridge1$slice$new(void *self, const void *ptr, std::size_t len) noexcept {
  vassert(ptr != nullptr, "an empty slice must not carry a null pointer into Rust");
  g::news++; g::init_self = self; g::init_ptr = ptr; g::init_len = len;
  std::uintptr_t *r = static_cast<std::uintptr_t *>(self);
  r[0] = reinterpret_cast<std::uintptr_t>(ptr); r[1] = len;
}
void *cxxbridge1$slice$ptr(const void *self) noexcept { return reinterpret_cast<void *>(static_cast<const std::uintptr_t *>(self)[0]); }
std::size_t cxxbridge1$slice$len(const void *self) noexcept { return static_cast<const std::uintptr_t *>(self)[1]; }
}
struct three { unsigned char b[3]; };
struct big { std::uint64_t a, b, c; };
template <typename T> rust::Slice<T> any_slice() {
  T *p = reinterpret_cast<T *>(nondet_u64());
  std::size_t n = nondet_u64();
  vassume(p != nullptr);
  return rust::Slice<T>(p, n);
}
template <typename T> void construct() {
  T *p = reinterpret_cast<T *>(nondet_u64());
  std::size_t n = nondet_u64();
  vassume(p != nullptr || n == 0);
  g::news = 0;
  rust::Slice<T> s(p, n);
  vassert(g::news == 1, "one slice is made");
  vassert(g::init_self == &s && g::init_len == n, "of the given length");
  if (p) vassert(g::init_ptr == p, "at the given address");
  else vassert(reinterpret_cast<std::uintptr_t>(g::init_ptr) % alignof(T) == 0, "an empty slice has an aligned address");
  vassert(s.size() == n && s.length() == n && s.empty() == (n == 0), "size, length and empty agree with the slice");
  if (p) vassert(s.data() == p, "data is the given address");
  rust::Slice<T> e;
  vassert(e.size() == 0 && e.empty(), "a default slice is empty");
  vassert(reinterpret_cast<std::uintptr_t>(e.data()) % alignof(T) == 0 && e.data() != nullptr, "a default slice has an aligned non-null address");
  DONE;
}
template <typename T> void index() {
  rust::Slice<T> s = any_slice<T>();
  std::uintptr_t base = reinterpret_cast<std::uintptr_t>(s.data());
  std::size_t i = nondet_u64();
  if (i < s.size()) {
    vassert(reinterpret_cast<std::uintptr_t>(&s[i]) == base + i * sizeof(T), "operator[] addresses the element");
    vassert(reinterpret_cast<std::uintptr_t>(&s.at(i)) == base + i * sizeof(T), "at addresses the element");
    vassert(reinterpret_cast<std::uintptr_t>(&s.front()) == base, "front is the first element");
    vassert(reinterpret_cast<std::uintptr_t>(&s.back()) == base + (s.size() - 1) * sizeof(T), "back is the last element");
    vcover("in range");
  } else {
    bool threw = false;
    try { s.at(i); } catch (const std::out_of_range &) { threw = true; }
    vassert(threw, "at throws out_of_range for a position outside the slice");
    vcover("out of range");
  }
  DONE;
}
template <typename T> void iter_law() {
  using I = typename rust::Slice<T>::iterator;
  rust::Slice<T> s = any_slice<T>();
  std::uintptr_t base = reinterpret_cast<std::uintptr_t>(s.data());
  std::ptrdiff_t n = nondet_u64(); const std::ptrdiff_t lim = std::ptrdiff_t(1) << 24;
  vassume(n > -lim && n < lim && base > (std::uintptr_t(1) << 40) && base < (std::uintptr_t(1) << 46));
  I b = s.begin();
  auto addr = [](I it) { return reinterpret_cast<std::uintptr_t>(it.operator->()); };
  vassert(addr(b) == base && addr(s.end()) == base + s.size() * sizeof(T), "begin and end span the slice");
  I p = b + n;
  std::uintptr_t pa = base + static_cast<std::uintptr_t>(n) * sizeof(T);
  vassert(addr(p) == pa && reinterpret_cast<std::uintptr_t>(&*p) == pa, "advancing by n moves n elements");
  vassert(addr(n + b) == pa, "n + it equals it + n");
  vassert(reinterpret_cast<std::uintptr_t>(&b[n]) == pa, "subscripting addresses the n-th element");
  vassert(addr(p - n) == base, "it - n undoes it + n");
  { I q = b; I &r = (q += n); vassert(addr(q) == pa && &r == &q, "+= moves and returns itself"); I &r2 = (q -= n); vassert(addr(q) == base && &r2 == &q, "-= moves and returns itself"); }
  { I q = p; I old = q++; vassert(addr(old) == pa && addr(q) == pa + sizeof(T), "postfix ++ returns the old position"); }
  { I q = p; I old = q--; vassert(addr(old) == pa && addr(q) == pa - sizeof(T), "postfix -- returns the old position"); }
  { I q = p; I &r = ++q; vassert(&r == &q && addr(q) == pa + sizeof(T), "prefix ++ moves one element"); }
  { I q = p; I &r = --q; vassert(&r == &q && addr(q) == pa - sizeof(T), "prefix -- moves one element"); }
  DONE;
}
template <typename T> void iter_order() {
  using I = typename rust::Slice<T>::iterator;
  rust::Slice<T> s = any_slice<T>();
  std::uintptr_t base = reinterpret_cast<std::uintptr_t>(s.data());
  vassume(base > (std::uintptr_t(1) << 40) && base < (std::uintptr_t(1) << 46));
  std::ptrdiff_t n = static_cast<std::int32_t>(nondet_u32()), m = static_cast<std::int32_t>(nondet_u32());
  I p = s.begin() + n, q = s.begin() + m;
  std::uintptr_t pa = reinterpret_cast<std::uintptr_t>(p.operator->()), qa = reinterpret_cast<std::uintptr_t>(q.operator->());
  vassert((p == q) == (pa == qa), "iterators are equal exactly at equal addresses");
  vassert((p != q) == (pa != qa), "iterators differ exactly at different addresses");
  vassert((p < q) == (pa < qa), "ordering is ordering of address (<)");
  vassert((p > q) == (pa > qa), "ordering is ordering of address (>)");
  vassert((p <= q) == (pa <= qa), "ordering is ordering of address (<=)");
  vassert((p >= q) == (pa >= qa), "ordering is ordering of address (>=)");
  DONE;
}
template <typename T> void iter_diff() {
  using I = typename rust::Slice<T>::iterator;
  rust::Slice<T> s = any_slice<T>();
  std::ptrdiff_t n = static_cast<std::int32_t>(nondet_u32());
  I b = s.begin();
  I p = b + n;
  vassert(p - b == n, "the difference of two iterators is their distance in elements");
  vassert(b - p == -n, "the difference is antisymmetric");
  DONE;
}
template <typename T> void assign() {
  rust::Slice<T> a = any_slice<T>(), b = any_slice<T>();
  auto ap = a.data(); auto an = a.size(); auto bp = b.data(); auto bn = b.size();
  rust::Slice<T> c(a);
  vassert(c.data() == ap && c.size() == an, "a copy is the same slice");
  a.swap(b);
  vassert(a.data() == bp && a.size() == bn && b.data() == ap && b.size() == an, "swap exchanges both slices");
  c = std::move(a);
  vassert(c.data() == bp && c.size() == bn, "assignment takes the other slice");
  DONE;
}
template <typename C, typename T> void from_container() {
  struct { T *p; std::size_t n; T *data() const { return p; } std::size_t size() const { return n; } } c{reinterpret_cast<T *>(nondet_u64()), nondet_u64()};
  vassume(c.p != nullptr || c.n == 0);
  rust::Slice<T> s(c);
  if (c.p) vassert(s.data() == c.p, "a slice of a container starts at its data");
  vassert(s.size() == c.n, "a slice of a container has its size");
  DONE;
}
#define ALL(T, N)                                                                                                     \
  extern "C" void c03_construct_##N() { construct<T>(); }                                                             \
  extern "C" void c03_index_##N() { index<T>(); }                                                                     \
  extern "C" void c03_iter_law_##N() { iter_law<T>(); }                                                               \
  extern "C" void c03_iter_order_##N() { iter_order<T>(); }                                                           \
  extern "C" void c03_iter_diff_##N() { iter_diff<T>(); }                                                             \
  extern "C" void c03_assign_##N() { assign<T>(); }                                                                   \
  extern "C" void c03_container_##N() { from_container<int, T>(); }
ALL(std::uint8_t, u8)
ALL(const std::uint32_t, const_u32)
ALL(std::uint64_t, u64)
ALL(three, size3)
ALL(const big, const_size24)
