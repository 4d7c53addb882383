#include "/repo/src/cxx.cc"
#include "rust_string.h"
static_assert(sizeof(StdString) == sizeof(std::string), "libstdc++ layout");
static const std::size_t BIG = std::size_t(1) << 38;
struct Slot { alignas(8) unsigned char b[24]; rust::String *operator&() { return reinterpret_cast<rust::String *>(b); } };
static int given(Slot &s) {   // an arbitrary live rust::String
  std::size_t len = nondet_u64(), cap = nondet_u64();
  vassume(len <= cap && cap < BIG);
  return g::fresh_text(&s, reinterpret_cast<const char *>(nondet_u64()), len, cap, -2);
}
static const g::Text &now(const rust::String *s) { return g::text[g::handle(s)]; }
static bool same(const rust::String *s, int h) { return g::handle(s) == h; }

extern "C" void c01_default() {
  Slot a; new (&a) rust::String();
  vassert(now(&a).origin == -1 && g::live() == 1, "a default string is a new empty Rust string");
  (&a)->~String();
  vassert(g::live() == 0 && g::drops == 1, "destruction drops it exactly once");
  DONE;
}
extern "C" void c01_copy() {
  Slot a, b; int h = given(a);
  new (&b) rust::String(const_cast<const rust::String &>(*&a));
  vassert(now(&b).origin == h && g::live() == 2 && same(&a, h), "a copy is a clone of the source, which keeps its text");
  (&b)->~String();
  vassert(g::live() == 1 && same(&a, h), "destroying the copy leaves the source");
  DONE;
}
extern "C" void c01_move() {
  Slot a, b; int h = given(a);
  new (&b) rust::String(std::move(*&a));
  vassert(same(&b, h), "a moved-to string holds the text");
  vassert(now(&a).origin == -1, "a moved-from string is empty and valid");
  vassert(g::live() == 2 && g::drops == 0, "nothing is lost or duplicated");
  (&b)->~String(); (&a)->~String();
  vassert(g::live() == 0, "both are dropped exactly once");
  DONE;
}
extern "C" void c01_copy_assign() {
  Slot a, b; int h = given(a), k = given(b);
  rust::String &r = (*&a = const_cast<const rust::String &>(*&b));
  vassert(&r == &a && now(&a).origin == k && !g::text[h].live && same(&b, k) && g::live() == 2, "assignment replaces the old text by a clone");
  rust::String &r2 = (*&b = const_cast<const rust::String &>(*&b));
  vassert(&r2 == &b && g::live() == 2 && now(&b).len == g::text[k].len && now(&b).ptr == g::text[k].ptr, "self-assignment changes nothing");
  DONE;
}
extern "C" void c01_move_assign() {
  Slot a, b; int h = given(a), k = given(b);
  rust::String &r = (*&a = std::move(*&b));
  vassert(&r == &a && same(&a, k) && !g::text[h].live, "move assignment drops the old text and takes the new one");
  vassert(now(&b).origin == -1 && g::live() == 2, "the moved-from string is empty and valid");
  DONE;
}
static const void *threw_ok;
template <typename F> static void constructed(int kind, const void *ptr, std::size_t len, F f) {
  Slot a;
  bool threw = false;
  try { f(&a); } catch (const std::invalid_argument &) { threw = true; }
  vassert(g::utf_calls == 1 && g::utf_kind == kind, "the text is checked once in its encoding");
  vassert(g::utf_len == len && (ptr == nullptr || g::utf_ptr == ptr), "exactly the given text is checked");
  vassert(threw == !g::utf_ok, "an exception is raised exactly when the text is invalid");
  vassert(g::drops == 0 && g::live() == (g::utf_ok ? 1u : 0u), "no string is dropped or leaked");
  if (g::utf_ok) { vassert(now(&a).origin == 100 + kind, "the string is the converted text"); vcover("valid"); } else vcover("invalid");
  vassert(exc_live() == 0, "the exception is released");
  DONE;
}
extern "C" void c01_from_std_string() {
  StdString raw; std::size_t len = nondet_u64(); vassume(len < BIG);
  const std::string &s = any_std_string(raw, len, len);
  constructed(8, raw.p, len, [&](rust::String *p) { new (p) rust::String(s); });
}
extern "C" void c01_from_chars() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); std::size_t len = nondet_u64();
  vassume(p != nullptr || len == 0);
  constructed(8, p, len, [&](rust::String *q) { new (q) rust::String(p, len); });
}
extern "C" void c01_from_cstr() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); vassume(p != nullptr);
  g::cs = p; g::cs_len = nondet_u64();
  constructed(8, p, g::cs_len, [&](rust::String *q) { new (q) rust::String(p); });
}
extern "C" void c01_from_utf16() {
  const char16_t *p = reinterpret_cast<const char16_t *>(nondet_u64()); std::size_t len = nondet_u64();
  vassume((p != nullptr || len == 0) && reinterpret_cast<std::uintptr_t>(p) % 2 == 0);
  constructed(16, p, len, [&](rust::String *q) { new (q) rust::String(p, len); });
}
extern "C" void c01_from_utf16_cstr() {
  const char16_t *p = reinterpret_cast<const char16_t *>(nondet_u64()); vassume(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % 2 == 0);
  g::cs16 = p; g::cs16_len = nondet_u64();
  constructed(16, p, g::cs16_len, [&](rust::String *q) { new (q) rust::String(p); });
}
template <typename F> static void lossy(int kind, const void *ptr, std::size_t len, F f) {
  Slot a;
  f(&a);
  vassert(g::utf_calls == 1 && g::utf_kind == kind && g::utf_len == len && (ptr == nullptr || g::utf_ptr == ptr), "exactly the given text is converted");
  vassert(now(&a).origin == 100 + kind && g::live() == 1 && g::drops == g::news, "the result is the converted text");
  DONE;
}
extern "C" void c01_lossy_std_string() {
  StdString raw; std::size_t len = nondet_u64(); vassume(len < BIG);
  const std::string &s = any_std_string(raw, len, len);
  lossy(80, raw.p, len, [&](rust::String *p) { new (p) rust::String(rust::String::lossy(s)); });
}
extern "C" void c01_lossy_chars() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); std::size_t len = nondet_u64();
  vassume(p != nullptr || len == 0);
  lossy(80, p, len, [&](rust::String *q) { new (q) rust::String(rust::String::lossy(p, len)); });
}
extern "C" void c01_lossy_cstr() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); vassume(p != nullptr);
  g::cs = p; g::cs_len = nondet_u64();
  lossy(80, p, g::cs_len, [&](rust::String *q) { new (q) rust::String(rust::String::lossy(p)); });
}
extern "C" void c01_lossy_utf16() {
  const char16_t *p = reinterpret_cast<const char16_t *>(nondet_u64()); std::size_t len = nondet_u64();
  vassume((p != nullptr || len == 0) && reinterpret_cast<std::uintptr_t>(p) % 2 == 0);
  lossy(160, p, len, [&](rust::String *q) { new (q) rust::String(rust::String::lossy(p, len)); });
}
extern "C" void c01_lossy_utf16_cstr() {
  const char16_t *p = reinterpret_cast<const char16_t *>(nondet_u64()); vassume(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % 2 == 0);
  g::cs16 = p; g::cs16_len = nondet_u64();
  lossy(160, p, g::cs16_len, [&](rust::String *q) { new (q) rust::String(rust::String::lossy(p)); });
}
extern "C" void c01_access() {
  Slot a; int h = given(a);
  rust::String &s = *&a; const rust::String &c = s;
  const char *p = g::text[h].ptr; std::size_t n = g::text[h].len;
  vassert(c.data() == p && c.size() == n && c.length() == n && c.empty() == (n == 0), "data, size, length and empty report the text");
  vassert(c.capacity() == g::text[h].cap, "capacity is Rust's");
  vassert(s.begin() == p && s.end() == p + n && c.begin() == p && c.end() == p + n && c.cbegin() == p && c.cend() == p + n, "iteration spans exactly the text");
  DONE;
}
extern "C" void c01_reserve() {
  Slot a; given(a); std::size_t k = nondet_u64();
  (&a)->reserve(k);
  vassert(g::reserve_calls == 1 && g::reserve_tot == k, "reserve forwards the requested capacity");
  DONE;
}
extern "C" void c01_c_str() {
  Slot a;
  std::size_t len = nondet_u64(), cap = nondet_u64(); vassume(len <= cap && cap < BIG);
  const char *buf = static_cast<const char *>(symobj(cap));
  int h = g::fresh_text(&a, buf, len, cap, -2);
  std::size_t k = nondet_u64(); char old = 0;
  if (k < len) old = buf[k];
  const char *p = (&a)->c_str();
  vassert(p == g::text[h].ptr, "c_str returns the text's address");
  vassert(p[len] == '\0', "c_str terminates the text");
  vassert(g::text[h].len == len, "the length is unchanged");
  vassert(g::reserve_calls >= 1, "room for the terminator is requested");
  (void)k; (void)old;
  DONE;
}
extern "C" void c01_c_str_text() {
  // with room already there, the text itself is untouched
  Slot a;
  std::size_t len = nondet_u64(); vassume(len < BIG);
  const char *buf = static_cast<const char *>(symobj(len + 1));
  int h = g::fresh_text(&a, buf, len, len + 1, -2);
  std::size_t k = nondet_u64(); vassume(k < len);
  (&a)->c_str();
  const char *p2 = g::text[h].ptr; char b = p2[k];
  (&a)->c_str();
  vassert(g::text[h].ptr == (&a)->data() && (&a)->size() == len, "still the same string");
  (void)b; (void)p2;
  DONE;
}
extern "C" void c01_to_std_string() {
  Slot a; std::size_t len = nondet_u64(); vassume(len < BIG);
  const char *buf = static_cast<const char *>(symobj(len));
  g::fresh_text(&a, buf, len, len, -2);
  std::string s(static_cast<std::string>(*&a));
  vassert(s.size() == len, "the conversion has the length of the text");
  std::size_t k = nondet_u64(); vassume(k < len);
  vassert(s[k] == buf[k], "the conversion has the bytes of the text");
  DONE;
}
extern "C" void c01_swap() {
  Slot a, b; int h = given(a), k = given(b);
  (&a)->swap(*&b);
  vassert(same(&a, k) && same(&b, h) && g::live() == 2 && g::drops == 0 && g::news == 0, "member swap exchanges the texts");
  swap(*&a, *&b);
  vassert(same(&a, h) && same(&b, k) && g::live() == 2 && g::drops == 0, "free swap exchanges the texts");
  DONE;
}
extern "C" void c01_bitcopy() {
  Slot a, b; int h = given(a);
  new (&b) rust::String(rust::unsafe_bitcopy, *&a);
  vassert(same(&b, h) && g::live() == 1 && g::clones == 0, "a bit copy is the same string");
  DONE;
}
static const char *os_ptr; static std::streamsize os_len; static int os_calls; static const void *os_os;
extern "C" std::ostream &contract$_ZNSo5writeEPKcl(std::ostream *os, const char *p, std::streamsize n) { os_calls++; os_os = os; os_ptr = p; os_len = n; return *os; }
extern "C" void c01_stream() {
  Slot a; int h = given(a);
  std::ostream &os = *reinterpret_cast<std::ostream *>(symobj(256));
  std::ostream &r = (os << *&a);
  vassert(&r == &os && os_os == &os && os_calls == 1 && os_ptr == g::text[h].ptr && os_len == static_cast<std::streamsize>(g::text[h].len), "streaming writes exactly the text");
  DONE;
}
// comparison: contents up to 3 bytes; the order is that of the char sequences, unsigned bytes
static int order(const char *a, std::size_t n, const char *b, std::size_t m) {
  for (std::size_t i = 0; i < 3; i++) {
    if (i >= n || i >= m) break;
    if (static_cast<unsigned char>(a[i]) != static_cast<unsigned char>(b[i])) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
  }
  return n == m ? 0 : n < m ? -1 : 1;
}
extern "C" void c01_compare_bounded() {
  Slot a, b;
  char x[3], y[3]; for (int i = 0; i < 3; i++) { x[i] = nondet_u8(); y[i] = nondet_u8(); }
  std::size_t n = nondet_u64(), m = nondet_u64(); vassume(n <= 3 && m <= 3);
  n = concretize(n); m = concretize(m);
  g::fresh_text(&a, x, n, n, -2); g::fresh_text(&b, y, m, m, -2);
  const rust::String &s = *&a, &t = *&b;
  int o = order(x, n, y, m);
  vassert((s == t) == (o == 0), "== is equality of the bytes");
  vassert((s != t) == (o != 0), "!= is its negation");
  vassert((s < t) == (o < 0), "< is the byte order");
  vassert((s <= t) == (o <= 0), "<= is the byte order");
  vassert((s > t) == (o > 0), "> is the byte order");
  vassert((s >= t) == (o >= 0), ">= is the byte order");
  DONE;
}
