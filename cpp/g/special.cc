
// ==== receivers, several arguments at once, Result without value, renaming, function pointers ==================
static Id IDS[7];
static const int NIDS = 7;
static bool ids(const Id *want, int n) { bool r = true; for (int i = 0; i < n; i++) r = r && IDS[i] == want[i]; return r; }
template <class T> static T *put(Slot<T> &s) { return new (s.b) T(V<T>::make()); }
void n::ct_unit(n::Key &k) { G.calls++; G.key = addr(&k); maybe_throw(); }
extern "C" PtrLen n$cxxbridge1$ct_unit(n::Key &k) noexcept;
extern "C" void c08_try_unit() {
  n::Key &k = *reinterpret_cast<n::Key *>(any_addr()); G.mode = 3;
  PtrLen r = n$cxxbridge1$ct_unit(k);
  vassert(G.calls == 1 && G.key == addr(&k) && exc_live() == 0, "the C++ function is called exactly once with its argument");
  if (G.threw) { vassert(X.calls == 1 && X.ptr == g::cs && X.len == g::cs_len && r.ptr == X.out.ptr && r.len == X.out.len, "the message is that of the exception"); vcover("threw"); }
  else { vassert(r.ptr == nullptr && X.calls == 0, "success is reported as success"); vcover("returned"); }
  DONE;
}
n::S n::ct_args(rust::String a, std::unique_ptr<C> b, std::shared_ptr<C> c, rust::Slice<std::uint16_t> d, rust::Box<R> e) {
  G.calls++;
  IDS[0] = V<rust::String>::id(a); IDS[1] = V<std::unique_ptr<C>>::id(b); IDS[2] = V<std::shared_ptr<C>>::id(c); IDS[3] = V<rust::Slice<std::uint16_t>>::id(d); IDS[4] = V<rust::Box<R>>::id(e);
  maybe_throw();
  n::S s = V<n::S>::make(); G.id = V<n::S>::id(s);
  return s;
}
extern "C" PtrLen n$cxxbridge1$ct_args(const rust::String *a, n::C *b, std::shared_ptr<n::C> *c, rust::Slice<std::uint16_t> d, n::R *e, n::S *ret) noexcept;
extern "C" void c08_try_args() {
  Slot<rust::String> a; Slot<std::shared_ptr<n::C>> c; n::C *b = new n::C(); n::R *e = new_box<n::R>(); rust::Slice<std::uint16_t> d = V<rust::Slice<std::uint16_t>>::make(); Slot<n::S> s;
  put(a); put(c); G.mode = 3;
  Id want[5] = {V<rust::String>::id(a.t()), Id{addr(b), 0, 0, 0}, V<std::shared_ptr<n::C>>::id(c.t()), V<rust::Slice<std::uint16_t>>::id(d), Id{addr(e), 0, 0, 0}};
  PtrLen r = n$cxxbridge1$ct_args(a.p(), b, c.p(), d, e, s.p());
  vassert(G.calls == 1 && ids(want, 5), "every argument arrives in its position, also next to an out-parameter");
  if (G.threw) { vassert(r.ptr == X.out.ptr && r.len == X.out.len && X.calls == 1, "the outcome is the exception's"); vcover("threw"); }
  else { vassert(r.ptr == nullptr && V<n::S>::id(s.t()) == G.id, "the success value is the one the function produced"); destroy(s.p()); vcover("returned"); }
  vassert(live() == 0 && exc_live() == 0, "arguments are released exactly once whether or not it throws");
  DONE;
}
n::Pod n::c_combo(Pod a, rust::String b, bool c, Pod d, rust::Vec<R> e, rust::Str f, E g) {
  G.calls++;
  IDS[0] = V<Pod>::id(a); IDS[1] = V<rust::String>::id(b); IDS[2] = V<bool>::id(c); IDS[3] = V<Pod>::id(d); IDS[4] = V<rust::Vec<R>>::id(e); IDS[5] = V<rust::Str>::id(f); IDS[6] = V<E>::id(g);
  Pod p = V<Pod>::make(); G.id = V<Pod>::id(p);
  return p;
}
extern "C" void n$cxxbridge1$c_combo(n::Pod *a, const rust::String *b, bool c, n::Pod *d, const rust::Vec<n::R> *e, rust::Str f, n::E g, n::Pod *ret) noexcept;
extern "C" void c08_combo() {
  Slot<n::Pod> a, d, r; Slot<rust::String> b; Slot<rust::Vec<n::R>> e; put(a); put(b); put(d); put(e); bool c = nondet_bool(); rust::Str f = V<rust::Str>::make(); n::E g = V<n::E>::make();
  Id want[7] = {V<n::Pod>::id(a.t()), V<rust::String>::id(b.t()), V<bool>::id(c), V<n::Pod>::id(d.t()), V<rust::Vec<n::R>>::id(e.t()), V<rust::Str>::id(f), V<n::E>::id(g)};
  n$cxxbridge1$c_combo(a.p(), b.p(), c, d.p(), e.p(), f, g, r.p());
  vassert(G.calls == 1 && ids(want, 7), "every argument arrives in its position");
  vassert(V<n::Pod>::id(r.t()) == G.id && live() == 0, "the result is the function's and every argument is released once");
  DONE;
}
extern "C" void n$cxxbridge1$r_combo(n::Pod *a, rust::String *b, bool c, n::Pod *d, rust::Vec<n::R> *e, rust::Str f, n::E g, n::Pod *ret) noexcept {
  G.calls++;
  IDS[0] = V<n::Pod>::id(*a); IDS[1] = V<rust::String>::id(*b); IDS[2] = V<bool>::id(c); IDS[3] = V<n::Pod>::id(*d); IDS[4] = V<rust::Vec<n::R>>::id(*e); IDS[5] = V<rust::Str>::id(f); IDS[6] = V<n::E>::id(g);
  { rust::String t(rust::unsafe_bitcopy, *b); rust::Vec<n::R> u(rust::unsafe_bitcopy, *e); }
  empty(b); empty(e);
  n::Pod p = V<n::Pod>::make(); G.id = V<n::Pod>::id(p); new (ret) n::Pod(p);
}
extern "C" void c08_rcombo() {
  n::Pod a = V<n::Pod>::make(), d = V<n::Pod>::make(); rust::String b = V<rust::String>::make(); rust::Vec<n::R> e = V<rust::Vec<n::R>>::make(); bool c = nondet_bool(); rust::Str f = V<rust::Str>::make(); n::E g = V<n::E>::make();
  Id want[7] = {V<n::Pod>::id(a), V<rust::String>::id(b), V<bool>::id(c), V<n::Pod>::id(d), V<rust::Vec<n::R>>::id(e), V<rust::Str>::id(f), V<n::E>::id(g)};
  n::Pod r = n::r_combo(a, std::move(b), c, d, std::move(e), f, g);
  vassert(G.calls == 1 && ids(want, 7), "every argument arrives in its position");
  vassert(V<n::Pod>::id(r) == G.id && live() == 0, "the result is the function's and every argument is released once");
  DONE;
}
std::uint32_t n::C::get(std::uint8_t pre, rust::String x) const { G.calls++; G.key = addr(this); G.pre = pre; G.id = V<rust::String>::id(x); G.post = nondet_u32(); maybe_throw(); return G.post; }
rust::String n::C::set(std::uint8_t pre, rust::Box<R> x) { G.calls++; G.key = addr(this); G.pre = pre; IDS[0] = V<rust::Box<R>>::id(x); maybe_throw(); rust::String s = V<rust::String>::make(); G.id = V<rust::String>::id(s); return s; }
const n::R &n::L::life(rust::Str x) const { G.calls++; G.key = addr(this); IDS[0] = V<rust::Str>::id(x); const R &r = V<const R &>::make(); G.id = V<const R &>::id(r); return r; }
std::uint32_t n::TrivialAlias::get(std::uint8_t pre) const { G.calls++; G.key = addr(this); G.pre = pre; G.post = nondet_u32(); return G.post; }
std::uint32_t n::M::get(std::uint8_t pre) const noexcept { G.calls++; G.key = addr(this); G.pre = pre; G.post = nondet_u32(); return G.post; }
n::Pod n::M::set(std::uint8_t pre, n::Pod x) noexcept { G.calls++; G.key = addr(this); G.pre = pre; IDS[0] = V<Pod>::id(x); Pod p = V<Pod>::make(); G.id = V<Pod>::id(p); return p; }
extern "C" std::uint32_t n$cxxbridge1$C$get(const n::C &self, std::uint8_t pre, const rust::String *x) noexcept;
extern "C" PtrLen n$cxxbridge1$C$set(n::C &self, std::uint8_t pre, n::R *x, rust::String *ret) noexcept;
extern "C" const n::R *n$cxxbridge1$L$life(const n::L &self, rust::Str x) noexcept;
extern "C" std::uint32_t n$cxxbridge1$M$get(const n::M &self, std::uint8_t pre) noexcept;
extern "C" void n$cxxbridge1$M$set(n::M &self, std::uint8_t pre, n::Pod *x, n::Pod *ret) noexcept;
extern "C" std::uint32_t n$cxxbridge1$TrivialAlias$get(const n::TrivialAlias &self, std::uint8_t pre) noexcept;
extern "C" void c08_method_get() {
  n::C k; Slot<rust::String> x; put(x); Id id = V<rust::String>::id(x.t()); std::uint8_t pre = nondet_u8();
  std::uint32_t r = n$cxxbridge1$C$get(k, pre, x.p());
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && G.id == id && r == G.post && live() == 0, "a const method is called on its receiver with its arguments");
  DONE;
}
extern "C" void x01_method_get() { n::C k; Slot<rust::String> x; put(x); G.mode = nondet_bool() ? 1 : 2; expect_terminate(true); n$cxxbridge1$C$get(k, 1, x.p()); vassert(false, "an exception does not get past a method not declared to throw"); }
extern "C" void c08_method_set() {
  n::C k; n::R *x = new_box<n::R>(); Slot<rust::String> s; std::uint8_t pre = nondet_u8(); G.mode = 3;
  PtrLen r = n$cxxbridge1$C$set(k, pre, x, s.p());
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && IDS[0] == (Id{addr(x), 0, 0, 0}) && exc_live() == 0, "a method is called on its receiver with its arguments");
  if (G.threw) { vassert(r.ptr == X.out.ptr && r.len == X.out.len && X.calls == 1, "the outcome is the exception's"); vcover("threw"); }
  else { vassert(r.ptr == nullptr && V<rust::String>::id(s.t()) == G.id, "the success value is the one the method produced"); destroy(s.p()); vcover("returned"); }
  vassert(live() == 0, "nothing is lost");
  DONE;
}
extern "C" void c08_method_life() {
  n::L k; rust::Str x = V<rust::Str>::make(); Id id = V<rust::Str>::id(x);
  const n::R *r = n$cxxbridge1$L$life(k, x);
  vassert(G.calls == 1 && G.key == addr(&k) && IDS[0] == id && addr(r) == G.id.a, "a method returning a reference returns the one the method produced");
  DONE;
}
extern "C" void c08_method_struct() {
  n::M k; std::uint8_t pre = nondet_u8();
  std::uint32_t r = n$cxxbridge1$M$get(k, pre);
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && r == G.post, "a shared struct's C++ method is called on its receiver");
  Slot<n::Pod> x, s; put(x); Id id = V<n::Pod>::id(x.t()); pre = nondet_u8();
  n$cxxbridge1$M$set(k, pre, x.p(), s.p());
  vassert(G.calls == 2 && G.key == addr(&k) && G.pre == pre && IDS[0] == id && V<n::Pod>::id(s.t()) == G.id, "with its arguments, returning its result");
  DONE;
}
extern "C" void c08_method_alias() {
  n::TrivialAlias k = V<n::TrivialAlias>::make(); std::uint8_t pre = nondet_u8();
  std::uint32_t r = n$cxxbridge1$TrivialAlias$get(k, pre);
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && r == G.post, "an aliased type's method is called on its receiver");
  DONE;
}
// Rust methods
extern "C" std::uint32_t n$cxxbridge1$R$rget(const n::R &self, std::uint8_t pre, rust::String *x) noexcept { G.calls++; G.key = addr(&self); G.pre = pre; G.id = V<rust::String>::id(*x); { rust::String t(rust::unsafe_bitcopy, *x); } empty(x); G.post = nondet_u32(); return G.post; }
extern "C" PtrLen n$cxxbridge1$R$rset(n::R &self, std::uint8_t pre, n::R *x, rust::String *ret) noexcept {
  G.calls++; G.key = addr(&self); G.pre = pre; IDS[0] = Id{addr(x), 0, 0, 0}; free_box(addr(x));
  if (nondet_bool()) { G.threw = true; return rust_error(); }
  rust::String s = V<rust::String>::make(); G.id = V<rust::String>::id(s); new (ret) rust::String(std::move(s)); return PtrLen{nullptr, nondet_u64()};
}
extern "C" std::uint32_t n$cxxbridge1$M$mget(const n::M &self, std::uint8_t pre) noexcept { G.calls++; G.key = addr(&self); G.pre = pre; G.post = nondet_u32(); return G.post; }
extern "C" void n$cxxbridge1$M$mset(n::M &self, std::uint8_t pre, n::Pod *x, n::Pod *ret) noexcept { G.calls++; G.key = addr(&self); G.pre = pre; IDS[0] = V<n::Pod>::id(*x); n::Pod p = V<n::Pod>::make(); G.id = V<n::Pod>::id(p); new (ret) n::Pod(p); }
extern "C" void c08_rmethod_get() {
  const n::R &k = V<const n::R &>::make(); rust::String x = V<rust::String>::make(); Id id = V<rust::String>::id(x); std::uint8_t pre = nondet_u8();
  std::uint32_t r = k.rget(pre, std::move(x));
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && G.id == id && r == G.post && live() == 0, "a Rust method is called on its receiver with its arguments");
  DONE;
}
extern "C" void c08_rmethod_set() {
  n::R &k = V<n::R &>::make(); rust::Box<n::R> x = V<rust::Box<n::R>>::make(); Id id = V<rust::Box<n::R>>::id(x); std::uint8_t pre = nondet_u8(); bool caught = false;
  try { rust::String s = k.rset(pre, std::move(x)); vassert(V<rust::String>::id(s) == G.id, "the success value is the one the method produced"); }
  catch (const rust::Error &e) { caught = true; vassert(e.what() == X.out.ptr, "the exception carries the message of the error"); }
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && IDS[0] == id && caught == G.threw, "a Rust method is called on its receiver with its arguments");
  vassert(live() == 0 && exc_live() == 0, "nothing is lost");
  DONE;
}
extern "C" void c08_rmethod_struct() {
  n::M k; std::uint8_t pre = nondet_u8();
  std::uint32_t r = k.mget(pre);
  vassert(G.calls == 1 && G.key == addr(&k) && G.pre == pre && r == G.post, "a shared struct's Rust method is called on its receiver");
  n::Pod x = V<n::Pod>::make(); pre = nondet_u8();
  n::Pod p = k.mset(pre, x);
  vassert(G.calls == 2 && G.key == addr(&k) && G.pre == pre && IDS[0] == V<n::Pod>::id(x) && V<n::Pod>::id(p) == G.id, "with its arguments, returning its result");
  DONE;
}
// names and namespaces
std::uint32_t n::renamed_cxx(std::uint32_t a) { G.calls++; G.pre = a; G.post = nondet_u32(); maybe_throw(); return G.post; }
std::uint32_t other::other_ns(std::uint32_t a) { G.calls += 10; G.pre = a; G.post = nondet_u32(); maybe_throw(); return G.post; }
extern "C" std::uint32_t n$cxxbridge1$renamed_rust(std::uint32_t a) noexcept;
extern "C" std::uint32_t other$cxxbridge1$other_ns(std::uint32_t a) noexcept;
extern "C" std::uint32_t n$cxxbridge1$r_renamed_rust(std::uint32_t a) noexcept { G.calls++; G.pre = a; G.post = nondet_u32(); return G.post; }
extern "C" std::uint32_t other$cxxbridge1$r_other_ns(std::uint32_t a) noexcept { G.calls += 10; G.pre = a; G.post = nondet_u32(); return G.post; }
extern "C" void c08_renamed() {
  std::uint32_t a = nondet_u32(), r = n$cxxbridge1$renamed_rust(a);
  vassert(G.calls == 1 && G.pre == a && r == G.post, "the function of the given C++ name is called");
  a = nondet_u32(); r = other$cxxbridge1$other_ns(a);
  vassert(G.calls == 11 && G.pre == a && r == G.post, "the function of the given namespace is called");
  a = nondet_u32(); r = n::r_renamed_cxx(a);
  vassert(G.calls == 12 && G.pre == a && r == G.post, "the C++ name reaches the Rust function");
  a = nondet_u32(); r = other::r_other_ns(a);
  vassert(G.calls == 22 && G.pre == a && r == G.post, "the namespaced C++ name reaches the Rust function");
  DONE;
}
// function pointers handed to C++
static u64 FN[2];
static struct { int f, g; Id id[3]; u64 at; u64 res; } T_;
void n::c_fn(std::uint8_t pre, rust::Fn<rust::Box<R>(std::uint32_t, rust::String, Pod)> f, rust::Fn<const R &(const R &)> g, std::uint16_t post) {
  G.calls++; G.pre = pre; G.post = post;
  std::uint32_t a = nondet_u32(); rust::String b = V<rust::String>::make(); Pod c = V<Pod>::make(); Id want[3] = {Id{a, 0, 0, 0}, V<rust::String>::id(b), V<Pod>::id(c)};
  { rust::Box<R> r = f(a, std::move(b), c);
    vassert(T_.f == 1 && T_.g == 0 && T_.at == FN[0] && T_.id[0] == want[0] && T_.id[1] == want[1] && T_.id[2] == want[2], "calling the function reaches that Rust function with its arguments");
    vassert(V<rust::Box<R>>::id(r).a == T_.res, "and returns its result"); }
  vassert(live() == 0, "nothing is lost");
  const R &x = V<const R &>::make(); const R &y = g(x);
  vassert(T_.f == 1 && T_.g == 1 && T_.at == FN[1] && T_.id[0] == (Id{addr(&x), 0, 0, 0}) && addr(&y) == T_.res, "each function pointer reaches its own function");
}
extern "C" n::R *n$cxxbridge1$c_fn$f$1(std::uint32_t a, rust::String *b, n::Pod *c, void *fn) noexcept {
  T_.f++; T_.at = addr(fn); T_.id[0] = Id{a, 0, 0, 0}; T_.id[1] = V<rust::String>::id(*b); T_.id[2] = V<n::Pod>::id(*c); { rust::String t(rust::unsafe_bitcopy, *b); } empty(b);
  n::R *r = new_box<n::R>(); T_.res = addr(r); return r;
}
extern "C" const n::R *n$cxxbridge1$c_fn$g$1(const n::R &a, void *fn) noexcept { T_.g++; T_.at = addr(fn); T_.id[0] = Id{addr(&a), 0, 0, 0}; T_.res = any_addr(); return reinterpret_cast<const n::R *>(T_.res); }
extern "C" rust::Box<n::R> n$cxxbridge1$c_fn$f$0(std::uint32_t, rust::String, n::Pod, void *) noexcept;
extern "C" const n::R &n$cxxbridge1$c_fn$g$0(const n::R &, void *) noexcept;
extern "C" void n$cxxbridge1$c_fn(std::uint8_t pre, rust::Fn<rust::Box<n::R>(std::uint32_t, rust::String, n::Pod)> f, rust::Fn<const n::R &(const n::R &)> g, std::uint16_t post) noexcept;
extern "C" void c08_fn() {
  Slot<rust::Fn<rust::Box<n::R>(std::uint32_t, rust::String, n::Pod)>> f; Slot<rust::Fn<const n::R &(const n::R &)>> g;
  FN[0] = any_addr(); FN[1] = any_addr(); vassume(FN[0] != FN[1]);
  u64 *w = reinterpret_cast<u64 *>(f.b); w[0] = reinterpret_cast<u64>(&n$cxxbridge1$c_fn$f$0); w[1] = FN[0];   // as Rust lays it out (R05)
  w = reinterpret_cast<u64 *>(g.b); w[0] = reinterpret_cast<u64>(&n$cxxbridge1$c_fn$g$0); w[1] = FN[1];
  std::uint8_t pre = nondet_u8(); std::uint16_t post = nondet_u16();
  n$cxxbridge1$c_fn(pre, f.t(), g.t(), post);
  vassert(G.calls == 1 && G.pre == pre && G.post == post, "neighbouring arguments keep value and position");
  DONE;
}

// ==== operators of shared structs =================================================================================
static struct { const void *a, *b; int cmp; int calls; std::size_t hash; } O;   // cmp of (a, b): -1 less, 0 equal, 1 greater, 2 unordered
static int cmp(const void *x, const void *y) {
  O.calls++;
  vassert((x == O.a && y == O.b) || (x == O.b && y == O.a), "the operands are those compared");
  if (x == O.a && y == O.b) return O.cmp;
  return O.cmp == 2 ? 2 : -O.cmp;
}
#define OPS(T) \
  extern "C" bool n$cxxbridge1$##T##$operator$eq(const n::T &a, const n::T &b) noexcept { return cmp(&a, &b) == 0; } \
  extern "C" bool n$cxxbridge1$##T##$operator$ne(const n::T &a, const n::T &b) noexcept { return cmp(&a, &b) != 0; } \
  extern "C" bool n$cxxbridge1$##T##$operator$lt(const n::T &a, const n::T &b) noexcept { return cmp(&a, &b) == -1; } \
  extern "C" bool n$cxxbridge1$##T##$operator$le(const n::T &a, const n::T &b) noexcept { int c = cmp(&a, &b); return c == -1 || c == 0; } \
  extern "C" bool n$cxxbridge1$##T##$operator$gt(const n::T &a, const n::T &b) noexcept { return cmp(&a, &b) == 1; } \
  extern "C" bool n$cxxbridge1$##T##$operator$ge(const n::T &a, const n::T &b) noexcept { int c = cmp(&a, &b); return c == 1 || c == 0; }
OPS(S) OPS(Pod) OPS(All) OPS(Part)
static void any_cmp(const void *a, const void *b, bool partial) { O.a = a; O.b = b; unsigned c = nondet_u8() % 4; vassume(partial || c != 3); O.cmp = c == 0 ? -1 : c == 1 ? 0 : c == 2 ? 1 : 2; }
template <class T> static void eq_ops(const T &a, const T &b) { vassert((a == b) == (O.cmp == 0), "== is Rust's =="); vassert((a != b) == (O.cmp != 0), "!= is Rust's !="); }
template <class T> static void ord_ops(const T &a, const T &b) {
  vassert((a < b) == (O.cmp == -1), "< is Rust's <"); vassert((a > b) == (O.cmp == 1), "> is Rust's >");
  vassert((a <= b) == (O.cmp == -1 || O.cmp == 0), "<= is Rust's <="); vassert((a >= b) == (O.cmp == 1 || O.cmp == 0), ">= is Rust's >=");
}
extern "C" void c08_op_S() { const n::S &a = V<const n::S &>::make(), &b = V<const n::S &>::make(); vassume(addr(&a) != addr(&b)); any_cmp(&a, &b, false); eq_ops(a, b); ord_ops(a, b); DONE; }
extern "C" void c08_op_Pod() { const n::Pod &a = V<const n::Pod &>::make(), &b = V<const n::Pod &>::make(); vassume(addr(&a) != addr(&b)); any_cmp(&a, &b, false); eq_ops(a, b); DONE; }
extern "C" void c08_op_All() { const n::All &a = V<const n::All &>::make(), &b = V<const n::All &>::make(); vassume(addr(&a) != addr(&b)); any_cmp(&a, &b, false); eq_ops(a, b); ord_ops(a, b); DONE; }
extern "C" void c08_op_Part() { const n::Part &a = V<const n::Part &>::make(), &b = V<const n::Part &>::make(); vassume(addr(&a) != addr(&b)); any_cmp(&a, &b, true); eq_ops(a, b); ord_ops(a, b); DONE; }
extern "C" std::size_t n$cxxbridge1$All$operator$hash(const n::All &a) noexcept { O.calls++; O.a = &a; O.hash = nondet_u64(); return O.hash; }
extern "C" std::size_t use_hash(const n::All &) noexcept;   // g/tail.cc, in the translation unit of the generated code
extern "C" void c08_hash() { const n::All &a = V<const n::All &>::make(); std::size_t h = use_hash(a); vassert(O.calls == 1 && O.a == &a && h == O.hash, "std::hash is Rust's hash"); DONE; }

// ==== layout of opaque Rust types ===================================================================================
static std::size_t SZ[6];
#define LAYOUT(T, I) extern "C" std::size_t n$cxxbridge1$##T##$operator$sizeof() noexcept { return SZ[I]; } extern "C" std::size_t n$cxxbridge1$##T##$operator$alignof() noexcept { return SZ[I + 1]; }
LAYOUT(Key, 0) LAYOUT(R, 2) LAYOUT(Counted, 4)
extern "C" void c08_layout() {
  for (int i = 0; i < 6; i++) SZ[i] = nondet_u64();
  vassert(rust::size_of<n::Key>() == SZ[0] && rust::align_of<n::Key>() == SZ[1], "size and alignment are Rust's");
  vassert(rust::size_of<n::R>() == SZ[2] && rust::align_of<n::R>() == SZ[3], "size and alignment are Rust's");
  vassert(rust::size_of<n::Counted>() == SZ[4] && rust::align_of<n::Counted>() == SZ[5], "size and alignment are Rust's");
  vassert(sizeof(n::Small) == 2 && sizeof(n::E) == 1 && sizeof(n::E64) == 8, "enums have the declared representation");
  vassert(static_cast<int>(n::E::A) == 3 && static_cast<int>(n::E::B) == 4 && static_cast<int>(n::E::Z) == 9, "enumerators have the declared discriminants");
  vassert(static_cast<long>(n::E64::N) == -5 && static_cast<long>(n::E64::M) == -4 && static_cast<long>(n::E64::X) == 77, "enumerators have the declared discriminants");
  vassert(offsetof(n::S, a) == 0 && offsetof(n::S, b) == 8 && offsetof(n::S, c) == 16 && sizeof(n::S) == 40, "fields are laid out in declaration order");
  vassert(offsetof(n::All, a) == 0 && offsetof(n::All, b) == 4 && offsetof(n::All, c) == 5 && offsetof(n::All, d) == 6 && sizeof(n::All) == 8, "fields are laid out in declaration order");
  DONE;
}

// ==== Box and Vec of bridge types =================================================================================
extern "C" void c08_box_pod() {
  n::Pod p = V<n::Pod>::make();
  { rust::Box<n::Pod> b(p);
    vassert(live() == 1 && G.boxes == 1 && reinterpret_cast<const unsigned char *>(b.operator->()) == BOXES[0], "a Box holds the storage Rust allocated");
    vassert(b->a == p.a && b->b == p.b, "with the value"); vassert(G.box_drops == 0, "alive"); }
  vassert(live() == 0 && G.box_drops == 1, "and gives it back to Rust once");
  DONE;
}
extern "C" void c08_box_opaque() {
  { rust::Box<n::R> a = V<rust::Box<n::R>>::make(); rust::Box<n::Counted> b = rust::Box<n::Counted>::from_raw(new_box<n::Counted>()); vassert(live() == 2, "two owners"); rust::Box<n::R> c = std::move(a); vassert(live() == 2, "moving keeps one owner"); }
  vassert(live() == 0 && G.box_drops == 2, "each Box is given back to Rust once");
  DONE;
}
template <class T> static void vec() {
  { rust::Vec<T> e; vassert(gv::news == 1, "an empty Vec is Rust's empty Vec"); }
  vassert(gv::drops == 1, "which is dropped by Rust");
  { rust::Vec<T> v = V<rust::Vec<T>>::make(); int h = gv::handle(&v); gv::v[h].len = nondet_u64(); gv::v[h].cap = nondet_u64(); vassume(gv::v[h].len <= gv::v[h].cap && gv::v[h].cap > 0);
    vassert(v.size() == gv::v[h].len && v.capacity() == gv::v[h].cap && addr(v.data()) == gv::v[h].data, "size, capacity and data are Rust's");
    std::size_t n = nondet_u64(), t = nondet_u64(); v.reserve_total(n); vassert(gv::reserves == 1 && gv::reserve_cap == n, "reserving asks Rust for that capacity");
    v.truncate(t); vassert(gv::truncs == 1 && gv::trunc_len == t, "truncating asks Rust for that length");
    std::size_t s = nondet_u64(); v.set_len(s); vassert(gv::v[h].len == s, "the length is set in Rust"); }
  vassert(live() == 0 && gv::drops == 2, "a Vec is dropped by Rust once");
  DONE;
}
extern "C" void c08_vec_Pod() { vec<n::Pod>(); }
extern "C" void c08_vec_E() { vec<n::E>(); }
extern "C" void c08_vec_R() { vec<n::R>(); }

// ==== smart pointers and vectors of bridge types ==================================================================
#define UNIQUE(M, T) \
  extern "C" void cxxbridge1$unique_ptr$##M##$null(std::unique_ptr<T> *) noexcept; extern "C" void cxxbridge1$unique_ptr$##M##$raw(std::unique_ptr<T> *, T *) noexcept; \
  extern "C" const T *cxxbridge1$unique_ptr$##M##$get(const std::unique_ptr<T> &) noexcept; extern "C" T *cxxbridge1$unique_ptr$##M##$release(std::unique_ptr<T> &) noexcept; extern "C" void cxxbridge1$unique_ptr$##M##$drop(std::unique_ptr<T> *) noexcept;
template <class T, class N, class R, class GG, class L, class D> static void unique(T *obj, N null, R raw, GG get, L release, D drop) {
  Slot<std::unique_ptr<T>> s; *reinterpret_cast<u64 *>(s.b) = nondet_u64();
  null(s.p()); vassert(get(s.t()) == nullptr, "null makes a null pointer"); vassert(release(s.t()) == nullptr, "which releases nothing"); drop(s.p());
  vassert(live() == 1, "nothing else is touched");
  raw(s.p(), obj); vassert(get(s.t()) == obj && live() == 1, "a pointer adopts exactly the given object");
  vassert(release(s.t()) == obj && live() == 1 && get(s.t()) == nullptr, "release hands over that object, alive, and leaves null");
  drop(s.p()); vassert(live() == 1, "dropping a released pointer touches nothing");
  raw(s.p(), obj); drop(s.p()); vassert(live() == 0, "dropping destroys the object once");
  DONE;
}
#define UNIQUE_CHECK(NAME, M, T, OBJ) UNIQUE(M, T) extern "C" void c08_unique_##NAME() { unique<T>(OBJ, cxxbridge1$unique_ptr$##M##$null, cxxbridge1$unique_ptr$##M##$raw, cxxbridge1$unique_ptr$##M##$get, cxxbridge1$unique_ptr$##M##$release, cxxbridge1$unique_ptr$##M##$drop); }
UNIQUE_CHECK(C, n$C, n::C, new n::C()) UNIQUE_CHECK(Pod, n$Pod, n::Pod, new n::Pod()) UNIQUE_CHECK(OpaqueAlias, n$OpaqueAlias, n::OpaqueAlias, new n::OpaqueAlias())
UNIQUE_CHECK(vector_Pod, std$vector$n$Pod, std::vector<n::Pod>, new std::vector<n::Pod>()) UNIQUE_CHECK(vector_C, std$vector$n$C, std::vector<n::C>, new std::vector<n::C>())
extern "C" n::Pod *cxxbridge1$unique_ptr$n$Pod$uninit(std::unique_ptr<n::Pod> *) noexcept;
extern "C" n::OpaqueAlias *cxxbridge1$unique_ptr$n$OpaqueAlias$uninit(std::unique_ptr<n::OpaqueAlias> *) noexcept;
template <class T, class U, class D> static void uninit(U make, D drop) {
  Slot<std::unique_ptr<T>> s; T *p = make(s.p());
  vassert(live() == 1 && s.t().get() == p, "a new pointer owns the storage it hands out");
  unsigned char *q = reinterpret_cast<unsigned char *>(p); q[0] = nondet_u8(); q[sizeof(T) - 1] = nondet_u8(); new (p) T();
  drop(s.p()); vassert(live() == 0, "and releases it once"); DONE;
}
extern "C" void c08_unique_new_Pod() { uninit<n::Pod>(cxxbridge1$unique_ptr$n$Pod$uninit, cxxbridge1$unique_ptr$n$Pod$drop); }
extern "C" void c08_unique_new_OpaqueAlias() { uninit<n::OpaqueAlias>(cxxbridge1$unique_ptr$n$OpaqueAlias$uninit, cxxbridge1$unique_ptr$n$OpaqueAlias$drop); }
#define SHARED(M, T) \
  extern "C" void cxxbridge1$shared_ptr$##M##$null(std::shared_ptr<T> *) noexcept; extern "C" void cxxbridge1$shared_ptr$##M##$clone(const std::shared_ptr<T> &, std::shared_ptr<T> *) noexcept; \
  extern "C" const T *cxxbridge1$shared_ptr$##M##$get(const std::shared_ptr<T> &) noexcept; extern "C" void cxxbridge1$shared_ptr$##M##$drop(std::shared_ptr<T> *) noexcept; \
  extern "C" void cxxbridge1$weak_ptr$##M##$null(std::weak_ptr<T> *) noexcept; extern "C" void cxxbridge1$weak_ptr$##M##$clone(const std::weak_ptr<T> &, std::weak_ptr<T> *) noexcept; \
  extern "C" void cxxbridge1$weak_ptr$##M##$downgrade(const std::shared_ptr<T> &, std::weak_ptr<T> *) noexcept; extern "C" void cxxbridge1$weak_ptr$##M##$upgrade(const std::weak_ptr<T> &, std::shared_ptr<T> *) noexcept; extern "C" void cxxbridge1$weak_ptr$##M##$drop(std::weak_ptr<T> *) noexcept; \
  extern "C" void c08_shared_##M() { \
    Slot<std::shared_ptr<T>> a, b, c; Slot<std::weak_ptr<T>> w, x; \
    new (a.b) std::shared_ptr<T>(new T()); T *p = a.t().get(); void *ctl = a.t()._M_refcount._M_pi; \
    int s = static_cast<int>(nondet_u32()), k = static_cast<int>(nondet_u32()); vassume(s >= 1 && k >= 1 && s < 0x7ffffff0 && k < 0x7ffffff0); \
    auto *rc = a.t()._M_refcount._M_pi; rc->_M_use_count = s; rc->_M_weak_count = k; \
    vassert(cxxbridge1$shared_ptr$##M##$get(a.t()) == p, "get is the object"); \
    cxxbridge1$shared_ptr$##M##$clone(a.t(), b.p()); vassert(b.t().get() == p && rc->_M_use_count == s + 1 && rc->_M_weak_count == k, "a clone is one more owner of the same object"); \
    cxxbridge1$weak_ptr$##M##$downgrade(b.t(), w.p()); vassert(w.t()._M_ptr == p && rc->_M_use_count == s + 1 && rc->_M_weak_count == k + 1, "a weak pointer is one more observer of it"); \
    cxxbridge1$weak_ptr$##M##$clone(w.t(), x.p()); vassert(x.t()._M_ptr == p && rc->_M_weak_count == k + 2, "so is its clone"); \
    cxxbridge1$weak_ptr$##M##$upgrade(x.t(), c.p()); vassert(c.t().get() == p && rc->_M_use_count == s + 2 && rc->_M_weak_count == k + 2, "a live object upgrades to an owner"); \
    cxxbridge1$shared_ptr$##M##$drop(c.p()); cxxbridge1$shared_ptr$##M##$drop(b.p()); cxxbridge1$weak_ptr$##M##$drop(x.p()); \
    vassert(rc->_M_use_count == s && rc->_M_weak_count == k + 1 && is_live(p), "each drop is one fewer"); \
    cxxbridge1$shared_ptr$##M##$drop(a.p()); \
    if (s > 1) { vassert(is_live(p) && rc->_M_use_count == s - 1, "other owners keep the object"); vcover("shared owners left"); DONE; return; } \
    vassert(!is_live(p) && is_live(ctl), "the last owner destroys the object"); \
    cxxbridge1$weak_ptr$##M##$upgrade(w.t(), c.p()); vassert(c.t().get() == nullptr, "a dead object upgrades to null"); cxxbridge1$shared_ptr$##M##$drop(c.p()); \
    cxxbridge1$weak_ptr$##M##$drop(w.p()); \
    if (k > 1) { vassert(is_live(ctl), "other observers keep the counts"); vcover("shared observers left"); } else { vassert(live() == 0, "the last pointer releases everything once"); vcover("shared last"); } \
    DONE; } \
  extern "C" void c08_shared_null_##M() { \
    Slot<std::shared_ptr<T>> a, b, d; Slot<std::weak_ptr<T>> w, x; \
    cxxbridge1$shared_ptr$##M##$null(a.p()); cxxbridge1$weak_ptr$##M##$null(x.p()); vassert(cxxbridge1$shared_ptr$##M##$get(a.t()) == nullptr, "null is null"); \
    cxxbridge1$shared_ptr$##M##$clone(a.t(), b.p()); cxxbridge1$weak_ptr$##M##$downgrade(b.t(), w.p()); cxxbridge1$weak_ptr$##M##$upgrade(w.t(), d.p()); \
    vassert(b.t().get() == nullptr && d.t().get() == nullptr && w.t()._M_refcount._M_pi == nullptr && x.t()._M_refcount._M_pi == nullptr, "and so is everything made from it"); \
    cxxbridge1$shared_ptr$##M##$drop(a.p()); cxxbridge1$shared_ptr$##M##$drop(b.p()); cxxbridge1$shared_ptr$##M##$drop(d.p()); cxxbridge1$weak_ptr$##M##$drop(w.p()); cxxbridge1$weak_ptr$##M##$drop(x.p()); \
    vassert(live() == 0, "nothing is allocated"); DONE; }
SHARED(n$C, n::C) SHARED(n$Pod, n::Pod)
extern "C" n::Pod *cxxbridge1$shared_ptr$n$Pod$uninit(std::shared_ptr<n::Pod> *) noexcept;
extern "C" void c08_shared_new_Pod() {
  Slot<std::shared_ptr<n::Pod>> s; n::Pod *p = cxxbridge1$shared_ptr$n$Pod$uninit(s.p());
  vassert(s.t().get() == p && s.t().use_count() == 1 && live() == 2, "a new shared pointer is the only owner of the storage it hands out");
  *p = V<n::Pod>::make(); cxxbridge1$shared_ptr$n$Pod$drop(s.p()); vassert(live() == 0, "and releases it once"); DONE;
}
#define VECTOR(M, T) \
  extern "C" std::vector<T> *cxxbridge1$std$vector$##M##$new() noexcept; extern "C" std::size_t cxxbridge1$std$vector$##M##$size(const std::vector<T> &) noexcept; extern "C" T *cxxbridge1$std$vector$##M##$get_unchecked(std::vector<T> *, std::size_t) noexcept; \
  extern "C" void c08_vector_##M() { \
    std::vector<T> *v = cxxbridge1$std$vector$##M##$new(); vassert(live() == 1 && cxxbridge1$std$vector$##M##$size(*v) == 0, "a new vector is empty and on the heap"); \
    u64 *w = reinterpret_cast<u64 *>(v); std::size_t len = nondet_u64(), cap = nondet_u64(), k = nondet_u64(); vassume(len <= cap && cap < (u64(1) << 33)); \
    w[0] = reinterpret_cast<u64>(symobj(cap * sizeof(T))); w[1] = w[0] + len * sizeof(T); w[2] = w[0] + cap * sizeof(T); \
    vassert(cxxbridge1$std$vector$##M##$size(*v) == len, "the size is the vector's"); \
    if (k < len) { vassert(addr(cxxbridge1$std$vector$##M##$get_unchecked(v, k)) == w[0] + k * sizeof(T), "an index addresses its element"); vcover("element"); } \
    DONE; }
VECTOR(n$Pod, n::Pod) VECTOR(n$C, n::C)
extern "C" void cxxbridge1$std$vector$n$Pod$push_back(std::vector<n::Pod> *, n::Pod *) noexcept;
extern "C" void cxxbridge1$std$vector$n$Pod$pop_back(std::vector<n::Pod> *, n::Pod *) noexcept;
static n::Pod *any_vec(u64 *w, std::size_t len, std::size_t cap) { vassume(len <= cap && cap < (u64(1) << 33)); n::Pod *b = cap ? static_cast<n::Pod *>(::operator new(cap * sizeof(n::Pod))) : nullptr; w[0] = addr(b); w[1] = w[0] + len * sizeof(n::Pod); w[2] = w[0] + cap * sizeof(n::Pod); return b; }
static void push(bool room) {
  Slot<std::vector<n::Pod>> v; u64 *w = reinterpret_cast<u64 *>(v.b); std::size_t len = nondet_u64(), cap = len, k = nondet_u64(); vassume(len < (u64(1) << 32) && k <= len);
  if (room) { cap = nondet_u64(); vassume(cap > len); } else { vassume(len <= 3); len = concretize(len); cap = len; }
  n::Pod *b = any_vec(w, len, cap); Slot<n::Pod> x; put(x); Id want = V<n::Pod>::id(k < len ? b[k] : x.t());
  cxxbridge1$std$vector$n$Pod$push_back(v.p(), x.p());
  n::Pod *b2 = reinterpret_cast<n::Pod *>(w[0]);
  vassert(w[1] - w[0] == (len + 1) * sizeof(n::Pod) && w[2] >= w[1] && live() == 1, "the vector grows by one element");
  vassert(V<n::Pod>::id(b2[k]) == want, "the old elements stay and the new one is last");
  DONE;
}
extern "C" void c08_vector_push() { push(true); }
extern "C" void c08_vector_push_grow_bounded() { push(false); }   // element-wise relocation: at most 3 elements
extern "C" void c08_vector_pop() {
  Slot<std::vector<n::Pod>> v; u64 *w = reinterpret_cast<u64 *>(v.b); std::size_t len = nondet_u64(), cap = nondet_u64(), k = nondet_u64(); vassume(len > 0 && k < len - 1);
  n::Pod *b = any_vec(w, len, cap); Id last = V<n::Pod>::id(b[len - 1]), keep = V<n::Pod>::id(b[k]); Slot<n::Pod> out;
  cxxbridge1$std$vector$n$Pod$pop_back(v.p(), out.p());
  vassert(w[0] == addr(b) && w[1] - w[0] == (len - 1) * sizeof(n::Pod) && V<n::Pod>::id(out.t()) == last && V<n::Pod>::id(b[k]) == keep && live() == 1, "the last element is moved out and the others stay");
  DONE;
}
