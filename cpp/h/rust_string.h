// Contracts of the Rust entry points for rust::String and rust::Str, as seen from C++
// (discharged on the Rust side by R05). A rust::String value is a handle into ghost state.
#pragma once
#include "verif.h"
namespace g {
struct Text { bool live; const char *ptr; std::size_t len, cap; int origin; };
static const int N = 8;
static Text text[N];
static int texts;
static std::size_t live() { std::size_t n = 0; for (int i = 0; i < texts; i++) n += text[i].live; return n; }
static int fresh_text(rust::String *self, const char *ptr, std::size_t len, std::size_t cap, int origin) {
  vassert(texts < N, "ghost table large enough");
  int h = texts++;
  text[h] = Text{true, ptr, len, cap, origin};
  std::uintptr_t *r = reinterpret_cast<std::uintptr_t *>(self);
  r[0] = 0x7000 + h; r[1] = 0x51; r[2] = 0x52;
  return h;
}
static int handle(const rust::String *self) {
  const std::uintptr_t *r = reinterpret_cast<const std::uintptr_t *>(self);
  std::uintptr_t h = r[0] - 0x7000;
  vassert(h < static_cast<std::uintptr_t>(texts), "a rust::String given to Rust is initialised");
  vassert(r[1] == 0x51 && r[2] == 0x52, "a rust::String given to Rust is intact");
  vassert(text[h].live, "a rust::String given to Rust has not been dropped or moved away");
  return static_cast<int>(h);
}
static int drops, clones, news;
static const void *utf_ptr; static std::size_t utf_len; static int utf_calls, utf_kind; static bool utf_ok;
static std::size_t reserve_add, reserve_tot; static int reserve_calls;
}
extern "C" {
void cxxbridge1$string$new(rust::String *self) noexcept { g::news++; g::fresh_text(self, reinterpret_cast<const char *>(1), 0, 0, -1); }
void cxxbridge1$string$clone(rust::String *self, const rust::String &other) noexcept {
  g::clones++;
  int h = g::handle(&other);
  g::fresh_text(self, g::text[h].ptr, g::text[h].len, g::text[h].len, h);
}
static bool utf(int kind, rust::String *self, const void *ptr, std::size_t len, bool lossy) {
  vassert(ptr != nullptr, "Rust is never handed a null text pointer");
  g::utf_calls++; g::utf_kind = kind; g::utf_ptr = ptr; g::utf_len = len;
  g::utf_ok = lossy || nondet_bool();
  if (g::utf_ok) g::fresh_text(self, static_cast<const char *>(ptr), len, len, 100 + kind);
  return g::utf_ok;
}
bool cxxbridge1$string$from_utf8(rust::String *self, const char *ptr, std::size_t len) noexcept { return utf(8, self, ptr, len, false); }
void cxxbridge1$string$from_utf8_lossy(rust::String *self, const char *ptr, std::size_t len) noexcept { utf(80, self, ptr, len, true); }
bool cxxbridge1$string$from_utf16(rust::String *self, const char16_t *ptr, std::size_t len) noexcept {
  vassert(reinterpret_cast<std::uintptr_t>(ptr) % 2 == 0, "UTF-16 text is aligned");
  return utf(16, self, ptr, len, false);
}
void cxxbridge1$string$from_utf16_lossy(rust::String *self, const char16_t *ptr, std::size_t len) noexcept {
  vassert(reinterpret_cast<std::uintptr_t>(ptr) % 2 == 0, "UTF-16 text is aligned");
  utf(160, self, ptr, len, true);
}
void cxxbridge1$string$drop(rust::String *self) noexcept { g::drops++; g::text[g::handle(self)].live = false; }
const char *cxxbridge1$string$ptr(const rust::String *self) noexcept { return g::text[g::handle(self)].ptr; }
std::size_t cxxbridge1$string$len(const rust::String *self) noexcept { return g::text[g::handle(self)].len; }
std::size_t cxxbridge1$string$capacity(const rust::String *self) noexcept { return g::text[g::handle(self)].cap; }
void cxxbridge1$string$reserve_additional(rust::String *self, std::size_t additional) noexcept {
  g::reserve_calls++; g::reserve_add = additional;
  g::Text &t = g::text[g::handle(self)];
  // the buffer moves: a new buffer with room for `additional` more bytes and the same text
  std::size_t cap = nondet_u64();
  vassume(cap >= t.len && cap - t.len >= additional && cap < (std::size_t(1) << 39));
  char *buf = static_cast<char *>(symobj(cap));
  std::size_t k = nondet_u64();
  if (k < t.len) vassume(buf[k] == t.ptr[k]);
  if (t.cap) forget(t.ptr); // the old buffer is gone
  t.ptr = buf; t.cap = cap;
}
void cxxbridge1$string$reserve_total(rust::String *self, std::size_t new_cap) noexcept { g::handle(self); g::reserve_calls++; g::reserve_tot = new_cap; }
void cxxbridge1$str$new(rust::Str *self) noexcept { std::uintptr_t *r = reinterpret_cast<std::uintptr_t *>(self); r[0] = 1; r[1] = 0; }
void cxxbridge1$str$ref(rust::Str *self, const rust::String *string) noexcept {
  int h = g::handle(string);
  std::uintptr_t *r = reinterpret_cast<std::uintptr_t *>(self);
  r[0] = reinterpret_cast<std::uintptr_t>(g::text[h].ptr); r[1] = g::text[h].len;
}
bool cxxbridge1$str$from(rust::Str *self, const char *ptr, std::size_t len) noexcept {
  vassert(ptr != nullptr, "Rust is never handed a null text pointer");
  g::utf_calls++; g::utf_kind = 1; g::utf_ptr = ptr; g::utf_len = len;
  g::utf_ok = nondet_bool();
  std::uintptr_t *r = reinterpret_cast<std::uintptr_t *>(self);
  if (g::utf_ok) { r[0] = reinterpret_cast<std::uintptr_t>(ptr); r[1] = len; }
  return g::utf_ok;
}
const char *cxxbridge1$str$ptr(const rust::Str *self) noexcept { return reinterpret_cast<const char *>(reinterpret_cast<const std::uintptr_t *>(self)[0]); }
std::size_t cxxbridge1$str$len(const rust::Str *self) noexcept { return reinterpret_cast<const std::uintptr_t *>(self)[1]; }
}
// libc: the length of the one C string in play
namespace g { static const char *cs; static std::size_t cs_len; static const char16_t *cs16; static std::size_t cs16_len; }
extern "C" std::size_t contract$strlen(const char *p) noexcept { vassert(p == g::cs, "strlen of the given C string"); return g::cs_len; }
extern "C" std::size_t contract$_ZNSt11char_traitsIDsE6lengthEPKDs(const char16_t *p) noexcept { vassert(p == g::cs16, "length of the given C string"); return g::cs16_len; }
// a std::string in an arbitrary state with text in a separate buffer (real libstdc++ layout)
struct StdString { const char *p; std::size_t len; std::size_t cap; std::size_t pad; };
static std::string &any_std_string(StdString &s, std::size_t cap, std::size_t len) {
  s.p = static_cast<const char *>(symobj(cap + 1));
  s.len = len; s.cap = cap;
  return reinterpret_cast<std::string &>(s);
}
