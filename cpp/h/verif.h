// Vocabulary of the C++ contract harnesses.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t nondet_u8() noexcept;
std::uint16_t nondet_u16() noexcept;
std::uint32_t nondet_u32() noexcept;
std::uint64_t nondet_u64() noexcept;
bool nondet_bool() noexcept;
double nondet_f64() noexcept;
float nondet_f32() noexcept;
void vassume(bool) noexcept;
void vassert(bool, const char *) noexcept;
void vcover(const char *) noexcept;
void *symobj(std::size_t) noexcept;          // fresh object, arbitrary contents; size may be symbolic
std::size_t heap_live() noexcept;            // live allocations of operator new / new[] / malloc
std::size_t exc_live() noexcept;             // exception objects alive
void expect_terminate(bool) noexcept;        // std::terminate is the required outcome
bool is_live(const void *) noexcept;
void forget(const void *) noexcept;          // the object dies: later access is a violation
std::size_t concretize(std::size_t) noexcept; // case split on the value
const char *last_what() noexcept;
}
// the C library as code, for sources that come to use it
extern "C" {
#define VLIB __attribute__((weak))
VLIB int strncmp(const char *a, const char *b, std::size_t n) noexcept {
  for (; n; n--, a++, b++) { if (*a != *b) return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b); if (!*a) return 0; }
  return 0;
}
VLIB int strcmp(const char *a, const char *b) noexcept {
  for (; *a == *b; a++, b++) if (!*a) return 0;
  return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
VLIB int bcmp(const void *a, const void *b, std::size_t n) noexcept {
  for (std::size_t i = 0; i < n; i++) if (static_cast<const char *>(a)[i] != static_cast<const char *>(b)[i]) return 1;
  return 0;
}
VLIB std::size_t strnlen(const char *a, std::size_t n) noexcept { std::size_t i = 0; while (i < n && a[i]) i++; return i; }
VLIB char *strncpy(char *d, const char *s, std::size_t n) noexcept {
  std::size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
VLIB char *strcpy(char *d, const char *s) noexcept { std::size_t i = 0; while ((d[i] = s[i])) i++; return d; }
}
#define REQUIRE(c) vassert((c), #c)
// a harness must reach its end on some path
#define DONE vcover("done")
