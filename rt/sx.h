// Harness interface.  In the symbolic build the sx_* functions are interpreted by the engine; in the
// native build (sx_native.cpp) symbolic inputs are read from a recorded counterexample / test case.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_sym(void* p, size_t n, const char* name);      // make n bytes arbitrary
void sx_assume(int c);                                 // restrict to c != 0
void sx_assert_(int c, const char* msg);               // obligation: c != 0 for every value
void sx_fail(const char* msg) __attribute__((noreturn));
void sx_reach(const char* label);                      // vacuity witness
void sx_observe(const char* name, uint64_t v);         // compared between engine and native run
uint64_t sx_concretize(uint64_t v);                    // case split over every feasible value
int sx_native(void);                                   // 1 in the native build
void sx_stop(void) __attribute__((noreturn));          // end this path, no verdict
int sx_valid(const void* p, size_t n);                 // engine only: n readable bytes at p?
int sx_is_symbolic(uint64_t v);
uint64_t sx_live_heap(void);                           // amount of heap in use (compare for equality only)
void sx_share(int mode);                                // 1: what exists now is shared with other threads and must not be written; 0: end; 2, 3: begin, end of bookkeeping
void sx_main(void);                                    // harness entry
#ifdef __cplusplus
}
#endif
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#ifdef SHARE
#define SX_SHARE(m) sx_share(m)
#else
#define SX_SHARE(m) (void)0
#endif
#define sx_assert(c, msg) sx_assert_(!!(c), msg)

#ifdef __cplusplus
template <class T> static inline T sx_any(const char* name) { T v; sx_sym(&v, sizeof v, name); return v; }
#endif
static inline uint32_t sx_u32(const char* name) { uint32_t v; sx_sym(&v, 4, name); return v; }
static inline uint64_t sx_u64(const char* name) { uint64_t v; sx_sym(&v, 8, name); return v; }
static inline uint8_t sx_u8(const char* name) { uint8_t v; sx_sym(&v, 1, name); return v; }
// arbitrary value in [0, n)
static inline uint32_t sx_below(const char* name, uint32_t n) { uint32_t v = sx_u32(name); sx_assume(v < n); return v; }
// arbitrary value in [0, n), one path per value
static inline uint32_t sx_pick(const char* name, uint32_t n) { return (uint32_t)sx_concretize(sx_below(name, n)); }
