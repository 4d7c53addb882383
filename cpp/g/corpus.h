// What a user of the corpus bridge (bridge/gen.py) writes on the C++ side.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <memory>
#include <string>
#include <vector>
namespace n {
struct S; struct Pod; struct Small; struct M; struct R; struct Key; struct Counted;
enum class E : std::uint8_t;
enum class E64 : std::int64_t;
struct C {
  std::uint64_t tag;
  std::uint32_t get(std::uint8_t pre, rust::String x) const;
  rust::String set(std::uint8_t pre, rust::Box<R> x);
};
struct L { const R &life(rust::Str x) const; };
struct OpaqueAlias { std::uint64_t tag; };
struct TrivialAlias { std::uint32_t a; std::uint16_t b; std::uint32_t get(std::uint8_t pre) const; };
//FUNCTIONS
void ct_unit(Key &k);
S ct_args(rust::String a, std::unique_ptr<C> b, std::shared_ptr<C> c, rust::Slice<std::uint16_t> d, rust::Box<R> e);
Pod c_combo(Pod a, rust::String b, bool c, Pod d, rust::Vec<R> e, rust::Str f, E g);
std::uint32_t renamed_cxx(std::uint32_t a);
void c_fn(std::uint8_t pre, rust::Fn<rust::Box<R>(std::uint32_t, rust::String, Pod)> f, rust::Fn<const R &(const R &)> g, std::uint16_t post);
}
namespace other { std::uint32_t other_ns(std::uint32_t a); }
