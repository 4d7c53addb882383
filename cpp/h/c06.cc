#include "/repo/src/cxx.cc"
#include "verif.h"
static const std::size_t BIG = std::size_t(1) << 38;
namespace rust { inline namespace cxxbridge1 { namespace {
template <> class impl<Error> final { public:
  static void set(Error &e, const char *msg, std::size_t len) { e.msg = msg; e.len = len; }
  static const char *msg(const Error &e) { return e.msg; }
  static std::size_t len(const Error &e) { return e.len; }
  static Error make() { Error e; e.msg = nullptr; e.len = 0; return e; }
}; } } }
using rust::Error;
using rust::cxxbridge1$error;
using Impl = rust::impl<Error>;
// an error holding a message buffer as Rust made it: allocated by cxxbridge1$error from arbitrary bytes
static std::size_t k_; static char kth; static const char *src_;
static void given(Error &e, std::size_t len) {
  const char *m = static_cast<const char *>(symobj(len));
  src_ = m;
  Impl::set(e, cxxbridge1$error(m, len), len);
}
struct Raw { alignas(8) unsigned char b[24]; Error &e() { return *reinterpret_cast<Error *>(b); } Raw() { new (b) Error(Impl::make()); } };
static_assert(sizeof(Error) == 24, "");
extern "C" void c06_error_alloc() {
  std::size_t len = nondet_u64(), k = nondet_u64(); vassume(len < BIG && k < len);
  const char *m = static_cast<const char *>(symobj(len));
  const char *c = cxxbridge1$error(m, len);
  vassert(c != m && c[k] == m[k], "the message is copied byte for byte");
  vassert(heap_live() == 1, "into one new buffer");
  delete[] c;
  vassert(heap_live() == 0, "which C++ can release");
  DONE;
}
extern "C" void c06_copy() {
  Raw a; std::size_t len = nondet_u64(), k = nondet_u64(); vassume(len < BIG && k < len);
  given(a.e(), len);
  { Error b(const_cast<const Error &>(a.e()));
    vassert(heap_live() == 2 && b.what() != a.e().what(), "a copy owns its own buffer");
    vassert(Impl::len(b) == len && b.what()[k] == a.e().what()[k] && b.what()[k] == src_[k], "with exactly the same text"); }
  vassert(heap_live() == 1 && a.e().what()[k] == src_[k], "destroying the copy releases only its own buffer");
  a.e().~Error();
  vassert(heap_live() == 0, "each buffer is released exactly once");
  DONE;
}
extern "C" void c06_copy_empty() {
  Raw a; Error b(const_cast<const Error &>(a.e()));
  vassert(b.what() == nullptr && heap_live() == 0, "a copy of an empty error is empty");
  DONE;
}
extern "C" void c06_move() {
  Raw a; std::size_t len = nondet_u64(); vassume(len < BIG);
  given(a.e(), len);
  const char *m = a.e().what();
  { Error b(std::move(a.e()));
    vassert(b.what() == m && Impl::len(b) == len, "moving transfers the message");
    vassert(a.e().what() == nullptr && Impl::len(a.e()) == 0, "and leaves the source empty"); }
  vassert(heap_live() == 0, "the message is released once, by its new owner");
  a.e().~Error();
  DONE;
}
extern "C" void c06_copy_assign() {
  Raw a, b; std::size_t n = nondet_u64(), m = nondet_u64(), k = nondet_u64(); vassume(n < BIG && m < BIG && k < m);
  bool ae = nondet_bool();
  if (!ae) given(a.e(), n);
  given(b.e(), m);
  Error &r = (a.e() = const_cast<const Error &>(b.e()));
  vassert(&r == &a.e() && heap_live() == 2, "the old message is released and a new buffer made");
  vassert(a.e().what() != b.e().what() && Impl::len(a.e()) == m && a.e().what()[k] == src_[k] && b.e().what()[k] == src_[k], "with exactly the same text; the source keeps its own");
  a.e().~Error(); b.e().~Error();
  vassert(heap_live() == 0, "each buffer is released exactly once");
  DONE;
}
extern "C" void c06_copy_assign_empty() {
  Raw a, b; std::size_t n = nondet_u64(); vassume(n < BIG);
  given(a.e(), n);
  a.e() = const_cast<const Error &>(b.e());
  vassert(a.e().what() == nullptr && heap_live() == 0, "assigning an empty error empties the target and releases its message");
  a.e().~Error();
  DONE;
}
extern "C" void c06_self_assign() {
  Raw a; std::size_t n = nondet_u64(), k = nondet_u64(); vassume(n < BIG && k < n);
  given(a.e(), n);
  const char *m = a.e().what();
  a.e() = const_cast<const Error &>(a.e());
  vassert(a.e().what() != nullptr && a.e().what()[k] == src_[k] && Impl::len(a.e()) == n && heap_live() == 1, "self-assignment keeps the message");
  (void)m;
  DONE;
}
extern "C" void c06_move_assign() {
  Raw a, b; std::size_t n = nondet_u64(), m = nondet_u64(); vassume(n < BIG && m < BIG);
  bool ae = nondet_bool();
  if (!ae) given(a.e(), n);
  given(b.e(), m);
  const char *t = b.e().what();
  Error &r = (a.e() = std::move(b.e()));
  vassert(&r == &a.e() && a.e().what() == t && Impl::len(a.e()) == m, "move assignment transfers the message");
  vassert(b.e().what() == nullptr && Impl::len(b.e()) == 0 && heap_live() == 1, "releases the old one and empties the source");
  a.e().~Error(); b.e().~Error();
  vassert(heap_live() == 0, "each buffer is released exactly once");
  DONE;
}
// throwing an error: the caught object carries the message, and everything is released at the end
extern "C" void c06_throw() {
  std::size_t len = nondet_u64(), k = nondet_u64(); vassume(len < BIG && k < len);
  bool caught = false;
  try { Raw a; given(a.e(), len); throw Error(std::move(a.e())); }
  catch (const std::exception &e) { caught = true; vassert(e.what()[k] == src_[k], "what() is the message"); }
  vassert(caught && heap_live() == 0 && exc_live() == 0, "the error is caught as std::exception and releases its message");
  DONE;
}
// C++ exception -> Rust: the reporter hands exactly the message over
namespace g { static const char *ptr; static std::size_t len; static int calls; static const char *cs; static std::size_t cslen; }
namespace rust { inline namespace cxxbridge1 { extern "C" repr::PtrLen cxxbridge1$exception(const char *p, std::size_t n) noexcept { g::calls++; g::ptr = p; g::len = n; return rust::repr::PtrLen{reinterpret_cast<void *>(0x77), n + 1}; } } }
extern "C" std::size_t contract$strlen(const char *p) noexcept { vassert(p == g::cs, "strlen of the given message"); return g::cslen; }
extern "C" void c06_fail_cstr() {
  rust::repr::PtrLen out{nullptr, 0};
  rust::detail::Fail f(out);
  g::cs = reinterpret_cast<const char *>(nondet_u64()); g::cslen = nondet_u64();
  f(g::cs);
  vassert(g::calls == 1 && g::ptr == g::cs && g::len == g::cslen, "the whole message is handed to Rust, once");
  vassert(out.ptr == reinterpret_cast<void *>(0x77) && out.len == g::cslen + 1, "Rust's buffer is reported as the failure");
  DONE;
}
struct StdString { const char *p; std::size_t len; std::size_t cap; std::size_t pad; };
extern "C" void c06_fail_string() {
  rust::repr::PtrLen out{nullptr, 0};
  rust::detail::Fail f(out);
  StdString s; s.len = nondet_u64(); vassume(s.len < BIG); s.cap = s.len; s.p = static_cast<const char *>(symobj(s.len + 1));
  f(reinterpret_cast<const std::string &>(s));
  vassert(g::calls == 1 && g::ptr == s.p && g::len == s.len, "the whole message is handed to Rust, once");
  vassert(out.ptr == reinterpret_cast<void *>(0x77) && out.len == s.len + 1, "Rust's buffer is reported as the failure");
  DONE;
}
