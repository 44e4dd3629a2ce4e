// Native side of the harness API: replays the concrete inputs found by the solver.
// usage: prog entry inputs.txt      (lines: name value | name xHEX)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
static std::vector<std::pair<std::string, std::string>> *in; static size_t pos; static long live;
static int quiet;
#ifndef SX_NO_NEW
void *operator new(size_t n) { live++; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { live++; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void *p) noexcept { if (p) { live--; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { live--; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { live--; free(p); } }
#endif
static const std::string &nxt(const char *name) {
  while (pos < in->size() && ((*in)[pos].first == "sched" || (*in)[pos].first == "sig")) pos++;
  if (pos >= in->size()) { printf("REPLAY-END at %s\n", name); fflush(stdout); _exit(95); }
  if ((*in)[pos].first != name) { printf("REPLAY-MISMATCH want %s have %s\n", name, (*in)[pos].first.c_str()); fflush(stdout); _exit(96); }
  if (!quiet) printf("IN %s %s\n", name, (*in)[pos].second.c_str());
  return (*in)[pos++].second;
}
extern "C" {
long sx_range(const char *n, long, long) { return (long)strtoull(nxt(n).c_str(), 0, 10); }
unsigned long sx_bits(const char *n, int) { return strtoull(nxt(n).c_str(), 0, 10); }
int sx_choose(const char *n, int) { return (int)strtoull(nxt(n).c_str(), 0, 10); }
double sx_double(const char *n) { unsigned long u = strtoull(nxt(n).c_str(), 0, 10); double d; memcpy(&d, &u, 8); return d; }
double sx_dyadic(const char *n, long, long, int) { return sx_double(n); }
void sx_bytes(const char *n, void *p, unsigned long k) { std::string s = nxt(n); for (unsigned long i = 0; i < k; i++) { unsigned v = 0; if (1 + 2 * i + 1 < s.size()) sscanf(s.c_str() + 1 + 2 * i, "%2x", &v); ((unsigned char *)p)[i] = v; } }
void sx_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(98); } }
void sx_assert(bool c, const char *m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(97); } }
void sx_reach(const char *m) { printf("REACH %s\n", m); }
void sx_observe(const char *n, unsigned long v) { printf("OBS %s %lu\n", n, v); }
void sx_known(bool c, const char *id) { if (c) { printf("KNOWN %s\n", id); fflush(stdout); _exit(94); } }
long sx_concretize(long v) { return v; }
bool sx_symbolic() { return false; }
long sx_heap_live() { return live; }
void sx_log(const char *n, long v) { printf("LOG %s %ld\n", n, v); }
void sx_undefined() { printf("UNDEFINED-FUNCTION\n"); fflush(stdout); _exit(99); }
void sx_done() { printf("DONE\n"); fflush(stdout); _exit(0); }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2; in = new std::vector<std::pair<std::string, std::string>>;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  setenv("GLIBCXX_FORCE_NEW", "1", 1);
  FILE *f = fopen(argv[2], "r"); if (!f) return 2; static char a[4096], b[1 << 20]; while (fscanf(f, "%4095s %1048575s", a, b) == 2) in->push_back({a, b}); fclose(f);
  typedef void (*Fn)(); Fn fn = (Fn)dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("NO-ENTRY\n"); return 3; }
  fn(); printf("DONE\n"); fflush(stdout); _exit(0);
}
