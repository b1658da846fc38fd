// Harness interface. Implemented by the symbolic engine, and by rt/native.cpp
// when a path is replayed against the natively compiled code.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t sx_sym(const char* name, unsigned bits);         // fresh symbolic value
void sx_sym_bytes(void* p, size_t n, const char* name);   // fresh symbolic bytes
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
void sx_assert_same(const void* a, const void* b, size_t n, const char* msg);  // byte-wise equality
void sx_fail(const char* msg);
void sx_stop(void);                                       // end this path normally
void sx_reach(const char* label);                         // vacuity witness
void sx_observe(uint64_t v);                              // compared with native replay
uint64_t sx_param(const char* name, uint64_t def);
uint64_t sx_concretize(uint64_t v);
uint64_t sx_pick(uint64_t n);                              // nondeterministic 0..n-1, enumerated by forking, mergeable
void sx_merge(void);                                      // prune paths that reach an identical symbolic state
uint64_t sx_live(void);                                   // live operator-new allocations
void sx_yield(void);                                      // scheduling point
uint64_t sx_threads(void);                                // unfinished threads besides the main one
uint64_t sx_tid(void);
uint64_t sx_time(void);
void sx_advance_time(uint64_t ns);
int sx_native(void);                                      // 1 under native replay
void sx_run_atexit(void);                                 // run static destructors at the end of the path
void sx_expect_live_at_exit(uint64_t n);
}
static inline uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) {  // inclusive, enumerated by forking
  uint64_t v = sx_sym(name, 32);
  sx_assume(v >= lo && v <= hi);
  return sx_concretize(v);
}
static inline uint64_t sx_choice(const char* name, uint64_t n) { return n <= 1 ? 0 : sx_range(name, 0, n - 1); }
static inline bool sx_bool(const char* name) { return sx_sym(name, 1) != 0; }
#define SX_ASSERT(c) sx_assert((c), #c)
