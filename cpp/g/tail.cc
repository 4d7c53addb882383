// The generated code, and a use of the std::hash specialisation it contains (which is visible in its translation unit only).
#include "bridge.cc"
extern "C" std::size_t use_hash(const n::All &a) noexcept { return std::hash<n::All>()(a); }
