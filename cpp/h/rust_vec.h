// Contracts of the Rust side of rust::Vec<T>, as seen from C++ (discharged on the Rust side by R05/R08).
// A rust::Vec value is a handle into ghost state. Growing moves the elements to a new buffer and the old
// buffer dies. The buffer is placed so that the element one past the end is a real object (`slot`), whatever
// the number of elements is.
#pragma once
#include "verif.h"
namespace gv {
struct V { bool live; std::uintptr_t data; std::size_t len, cap; void *slot; int built; };
static const int N = 8;
static V v[N];
static int n, drops, news, truncs, reserves;
static std::size_t trunc_len, reserve_cap;
static std::size_t live() { std::size_t k = 0; for (int i = 0; i < n; i++) k += v[i].live; return k; }
static int fresh(void *self, std::uintptr_t data, std::size_t len, std::size_t cap) {
  vassert(n < N, "ghost table");
  int h = n++;
  v[h] = V{true, data, len, cap, nullptr, 0};
  std::uintptr_t *r = static_cast<std::uintptr_t *>(self);
  r[0] = 0x9000 + h; r[1] = 0x91; r[2] = 0x92;
  return h;
}
static int handle(const void *self) {
  const std::uintptr_t *r = static_cast<const std::uintptr_t *>(self);
  std::uintptr_t h = r[0] - 0x9000;
  vassert(h < static_cast<std::uintptr_t>(n), "a rust::Vec given to Rust is initialised");
  vassert(r[1] == 0x91 && r[2] == 0x92, "a rust::Vec given to Rust is intact");
  vassert(v[h].live, "a rust::Vec given to Rust has not been dropped or moved away");
  return static_cast<int>(h);
}
static bool small;   // small: buffers are real arrays of up to 4 elements; otherwise only the slot past the end is real
static void *old_slot;
static void reserve(void *self, std::size_t new_cap, std::size_t size) {
  V &x = v[handle(self)];
  reserves++; reserve_cap = new_cap;
  if (new_cap <= x.cap) return;
  std::size_t cap = new_cap;
  if (small) {
    vassert(new_cap <= 4, "bounded harness");
    char *p = static_cast<char *>(symobj(4 * size));
    for (std::size_t i = 0; i < x.len * size; i++) p[i] = reinterpret_cast<const char *>(x.data)[i];
    if (x.cap) forget(reinterpret_cast<void *>(x.data));
    x.data = reinterpret_cast<std::uintptr_t>(p); x.cap = 4;
  } else {
    x.slot = symobj(size);
    x.data = reinterpret_cast<std::uintptr_t>(x.slot) - x.len * size;
    x.cap = cap;
  }
}
}
