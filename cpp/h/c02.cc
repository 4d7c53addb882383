#include "/repo/src/cxx.cc"
#include "rust_string.h"
static const std::size_t BIG = std::size_t(1) << 38;
static rust::Str any_str(const char *p, std::size_t n) { rust::Str s; std::uintptr_t *r = reinterpret_cast<std::uintptr_t *>(&s); r[0] = reinterpret_cast<std::uintptr_t>(p); r[1] = n; return s; }
static rust::Str any_str() { const char *p = reinterpret_cast<const char *>(nondet_u64()); std::size_t n = nondet_u64(); vassume(p != nullptr); return any_str(p, n); }
extern "C" void c02_default() {
  rust::Str s;
  vassert(s.size() == 0 && s.empty() && s.data() != nullptr, "a default string slice is empty and not null");
  vassert(s.begin() == s.end(), "it spans nothing");
  DONE;
}
extern "C" void c02_from_string() {
  alignas(8) unsigned char b[24]; rust::String *p = reinterpret_cast<rust::String *>(b);
  std::size_t len = nondet_u64(); vassume(len < BIG);
  int h = g::fresh_text(p, reinterpret_cast<const char *>(nondet_u64()), len, len, -2);
  rust::Str s(*p);
  vassert(s.data() == g::text[h].ptr && s.size() == len && g::live() == 1, "a slice of a string spans its text");
  DONE;
}
template <typename F> static void constructed(const char *ptr, std::size_t len, F f) {
  bool threw = false;
  try {
    rust::Str s = f();
    vassert(s.size() == len && s.length() == len && s.empty() == (len == 0), "the slice has the given length");
    if (ptr) vassert(s.data() == ptr, "the slice is the given text");
    else vassert(s.data() != nullptr, "an empty slice is not null");
  } catch (const std::invalid_argument &) { threw = true; }
  vassert(g::utf_calls == 1 && g::utf_kind == 1, "the text is checked once");
  vassert(g::utf_len == len && (ptr == nullptr || g::utf_ptr == ptr), "exactly the given text is checked");
  vassert(threw == !g::utf_ok, "an exception is raised exactly when the text is invalid");
  if (g::utf_ok) vcover("valid"); else vcover("invalid");
  DONE;
}
extern "C" void c02_from_std_string() {
  StdString raw; std::size_t len = nondet_u64(); vassume(len < BIG);
  const std::string &s = any_std_string(raw, len, len);
  constructed(raw.p, len, [&] { return rust::Str(s); });
}
extern "C" void c02_from_cstr() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); vassume(p != nullptr);
  g::cs = p; g::cs_len = nondet_u64();
  constructed(p, g::cs_len, [&] { return rust::Str(p); });
}
extern "C" void c02_from_chars() {
  const char *p = reinterpret_cast<const char *>(nondet_u64()); std::size_t len = nondet_u64();
  vassume(p != nullptr || len == 0);
  constructed(p, len, [&] { return rust::Str(p, len); });
}
extern "C" void c02_access() {
  rust::Str s = any_str();
  const std::uintptr_t *r = reinterpret_cast<const std::uintptr_t *>(&s);
  const char *p = reinterpret_cast<const char *>(r[0]); std::size_t n = r[1];
  vassert(s.data() == p && s.size() == n && s.length() == n && s.empty() == (n == 0), "data, size, length and empty report the text");
  vassert(s.begin() == p && s.end() == p + n && s.cbegin() == p && s.cend() == p + n, "iteration spans exactly the text");
#if __cplusplus >= 201703L
  std::string_view v = static_cast<std::string_view>(s);
  vassert(v.data() == p && v.size() == n, "the string_view is the same text");
#endif
  rust::Str t(s), u;
  rust::Str &ref = (u = s);
  vassert(&ref == &u && t.data() == p && t.size() == n && u.data() == p && u.size() == n, "copies are the same text");
  DONE;
}
extern "C" void c02_swap() {
  rust::Str a = any_str(), b = any_str();
  const char *p = a.data(), *q = b.data(); std::size_t n = a.size(), m = b.size();
  a.swap(b);
  vassert(a.data() == q && a.size() == m && b.data() == p && b.size() == n, "swap exchanges both");
  DONE;
}
extern "C" void c02_to_std_string() {
  std::size_t len = nondet_u64(); vassume(len < BIG);
  const char *buf = static_cast<const char *>(symobj(len));
  rust::Str s = any_str(buf, len);
  std::string t(static_cast<std::string>(s));
  vassert(t.size() == len, "the conversion has the length of the text");
  std::size_t k = nondet_u64(); vassume(k < len);
  vassert(t[k] == buf[k], "the conversion has the bytes of the text");
  DONE;
}
static const char *os_ptr; static std::streamsize os_len; static int os_calls; static const void *os_os;
extern "C" std::ostream &contract$_ZNSo5writeEPKcl(std::ostream *os, const char *p, std::streamsize n) { os_calls++; os_os = os; os_ptr = p; os_len = n; return *os; }
extern "C" void c02_stream() {
  rust::Str s = any_str();
  std::ostream &os = *reinterpret_cast<std::ostream *>(symobj(256));
  std::ostream &r = (os << s);
  vassert(&r == &os && os_os == &os && os_calls == 1 && os_ptr == s.data() && os_len == static_cast<std::streamsize>(s.size()), "streaming writes exactly the text");
  DONE;
}
static int order(const char *a, std::size_t n, const char *b, std::size_t m) {
  for (std::size_t i = 0; i < n && i < m; i++)
    if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
  return n == m ? 0 : n < m ? -1 : 1;
}
static void compare(std::size_t max) {
  char x[4], y[4]; for (int i = 0; i < 4; i++) { x[i] = nondet_u8(); y[i] = nondet_u8(); }
  std::size_t n = nondet_u64(), m = nondet_u64(); vassume(n <= max && m <= max);
  n = concretize(n); m = concretize(m);
  rust::Str s = any_str(x, n), t = any_str(y, m);
  int o = order(x, n, y, m);
  vassert((s == t) == (o == 0), "== is equality of the bytes");
  vassert((s != t) == (o != 0), "!= is its negation");
  vassert((s < t) == (o < 0), "< is the byte order");
  vassert((s <= t) == (o <= 0), "<= is the byte order");
  vassert((s > t) == (o > 0), "> is the byte order");
  vassert((s >= t) == (o >= 0), ">= is the byte order");
  DONE;
}
extern "C" void c02_compare_bounded() { compare(3); }
extern "C" void c02_self() {   // the same text compares equal to itself whatever its address, and prefixes of different length never do
  rust::Str s = any_str(), t = any_str();
  if (s.size() != t.size()) { vassert(!(s == t) && s != t, "different lengths are never equal"); vcover("lengths differ"); }
  DONE;
}
