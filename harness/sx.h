// Harness interface of the symbolic executor.  The same harness compiles natively
// (sx_native.cc) where it replays concrete values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
long sx_range(const char *name, long lo, long hi);            // symbolic integer lo..hi
unsigned long sx_bits(const char *name, int width);            // symbolic bit pattern
int sx_choose(const char *name, int n);                        // forks over 0..n-1
double sx_double(const char *name);                            // any IEEE double bit pattern
double sx_dyadic(const char *name, long lo, long hi, int scale); // k*2^-scale, lo<=k<=hi (exact)
void sx_bytes(const char *name, void *p, unsigned long n);     // symbolic bytes
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_reach(const char *label);                              // vacuity witness
void sx_observe(const char *name, unsigned long v);            // compared with the native run
void sx_known(bool c, const char *id);                         // listed finding
long sx_concretize(long v);
bool sx_symbolic();
long sx_heap_live();
void sx_log(const char *name, long v);
void sx_done();
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c, msg) sx_assert((bool)(c), msg " [" #c "]")
#ifndef SX_TIER
#define SX_TIER 0
#endif
#define TIERED(q, t) (SX_TIER ? (t) : (q))
#define ENTRY extern "C" void
static inline unsigned long sx_dbits(double d) { unsigned long u; __builtin_memcpy(&u, &d, 8); return u; }
static inline void sx_observed(const char *n, double d) { sx_observe(n, sx_dbits(d)); }
