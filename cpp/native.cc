// Native counterpart of the harness vocabulary: replays the values of a counterexample.
// exit 0: harness ran to its end; 1: an obligation fails; 77: an assumption does not hold (not a replay).
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <signal.h>
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>
extern "C" void HARNESS();
namespace {
struct Val { bool arr; unsigned long long n; unsigned char *bytes; };
Val vals[65536]; int nvals, at;
bool expect;
const char *what;
[[noreturn]] void fail(const char *m) { std::printf("FAILS: %s\n", m); std::fflush(stdout); _exit(1); }
unsigned long long next() { if (at >= nvals) { return 0; } return vals[at++].n; }
struct Obj { char *p, *map; std::size_t n, mapn; int kind; bool live; };
Obj objs[4096]; int nobjs;
void *fresh(std::size_t n, int kind) {
  std::size_t m = (n + 4095) / 4096 * 4096;
  char *map = static_cast<char *>(mmap(nullptr, m + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (map == MAP_FAILED) { std::printf("cannot map %zu bytes\n", n); std::fflush(stdout); _exit(77); }
  mprotect(map, 4096, PROT_NONE); mprotect(map + 4096 + m, 4096, PROT_NONE);
  char *p = map + 4096 + m - n;
  if (nobjs >= 4096) _exit(77);
  objs[nobjs++] = Obj{p, map, n, m + 8192, kind, true};
  return p;
}
void release(void *p, int kind, const char *w) {
  if (p == nullptr) return;
  for (int i = nobjs; i-- > 0;) if (objs[i].p == p && objs[i].live) {
    if (objs[i].kind != kind) fail("object released with the wrong function");
    objs[i].live = false; mprotect(objs[i].map, objs[i].mapn, PROT_NONE); return;
  }
  fail(w);
}
void term() { if (expect) { std::puts("terminates, as required"); std::fflush(stdout); _exit(0); } fail("std::terminate"); }
void segv(int, siginfo_t *si, void *) { std::printf("FAILS: invalid memory access at %p\n", si->si_addr); std::fflush(stdout); _exit(1); }
void sig(int s) { if (s == SIGABRT && expect) _exit(0); std::printf("FAILS: signal %d\n", s); std::fflush(stdout); _exit(1); }
}
extern "C" {
std::uint8_t nondet_u8() noexcept { return next(); }
std::uint16_t nondet_u16() noexcept { return next(); }
std::uint32_t nondet_u32() noexcept { return next(); }
std::uint64_t nondet_u64() noexcept { return next(); }
bool nondet_bool() noexcept { return next() & 1; }
double nondet_f64() noexcept { std::uint64_t v = next(); double d; std::memcpy(&d, &v, 8); return d; }
float nondet_f32() noexcept { std::uint32_t v = next(); float d; std::memcpy(&d, &v, 4); return d; }
void vassume(bool b) noexcept { if (!b) { std::puts("an assumption of the harness does not hold"); std::fflush(stdout); _exit(77); } }
void vassert(bool b, const char *m) noexcept { if (!b) fail(m); }
void vcover(const char *) noexcept {}
void *symobj(std::size_t n) noexcept {
  char *p = static_cast<char *>(fresh(n, 0));
  if (at < nvals && vals[at].arr) { std::size_t k = vals[at].n < 256 ? vals[at].n : 256; if (k > n) k = n; if (k) std::memcpy(p, vals[at].bytes, k); at++; }
  else for (std::size_t i = 0; i < n && at < nvals; i++) p[i] = static_cast<char>(next());
  return p;
}
std::size_t heap_live() noexcept { std::size_t n = 0; for (int i = 0; i < nobjs; i++) n += objs[i].live && objs[i].kind; return n; }
std::size_t exc_live() noexcept { return 0; }
void expect_terminate(bool b) noexcept { expect = b; }
bool is_live(const void *p) noexcept { for (int i = 0; i < nobjs; i++) if (objs[i].p == p) return objs[i].live; return true; }
void forget(const void *p) noexcept { for (int i = 0; i < nobjs; i++) if (objs[i].p == p && objs[i].live) { objs[i].live = false; mprotect(objs[i].map, objs[i].mapn, PROT_NONE); } }
std::size_t concretize(std::size_t n) noexcept { return n; }
const char *last_what() noexcept { return what; }
void *vp_malloc(std::size_t n) noexcept { return fresh(n, 1); }
void *vp_new(std::size_t n) { return fresh(n, 2); }
void *vp_newa(std::size_t n) { return fresh(n, 3); }
void vp_free(void *p) noexcept { release(p, 1, "free of something that is not a live allocation"); }
void vp_delete(void *p) noexcept { release(p, 2, "delete of something that is not a live allocation"); }
void vp_delete_n(void *p, std::size_t) noexcept { release(p, 2, "delete of something that is not a live allocation"); }
void vp_deletea(void *p) noexcept { release(p, 3, "delete[] of something that is not a live allocation"); }
void vp_out_of_range(void *p, const char *w) { what = w; new (p) std::out_of_range(w); }
void vp_invalid_argument(void *p, const char *w) { what = w; new (p) std::invalid_argument(w); }
}
int main(int argc, char **argv) {
  std::FILE *f = std::fopen(argv[1], "r");
  unsigned long long w, n;
  char tag[8];
  while (f && std::fscanf(f, "%7s %llu", tag, &n) == 2) {
    Val &v = vals[nvals++];
    v.arr = tag[0] == 'a'; v.n = n;
    if (v.arr) { std::fscanf(f, "%llu", &w); v.bytes = static_cast<unsigned char *>(std::calloc(257, 1)); for (unsigned long long i = 0; i < w; i++) { unsigned b; std::fscanf(f, "%u", &b); v.bytes[i] = b; } }
  }
  (void)argc;
  std::set_terminate(term);
  struct sigaction sa = {};
  sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  signal(SIGABRT, sig); signal(SIGILL, sig); signal(SIGFPE, sig);
  alarm(20);
  try { HARNESS(); } catch (...) { fail("an exception escapes the harness"); }
  std::puts("ran to its end"); std::fflush(stdout);
  _exit(0);
}
