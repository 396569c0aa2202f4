// Interface between harnesses and the symbolic executor (or, natively, the
// replay runtime in native/rt.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vp_sym(const char *name, uint64_t bits);      // a fresh symbolic value, zero-extended
void vp_assume(bool c);
void vp_assert(bool c, const char *label);
void vp_reach(const char *label);                      // reachability witness
void vp_emit(uint64_t v);                              // trace, compared with the native run
uint64_t vp_config();                                  // which scenario this job explores
int vp_spawn(void (*fn)(void *), void *arg);
void vp_join_all();
int vp_tid();
void vp_pause();
void vp_mutex_lock(uint32_t *m);
bool vp_mutex_trylock(uint32_t *m);
void vp_mutex_unlock(uint32_t *m);
uint64_t vp_stamp();
int64_t vp_live();                                     // live heap allocations
[[noreturn]] void vp_stop();
bool vp_is_native();
void vp_nopreempt(int on);
uint64_t vp_concrete(uint64_t v);                      // fork on every feasible value
bool vp_is_symbolic(uint64_t v);
uint64_t vp_select(bool c, uint64_t a, uint64_t b);    // c ? a : b without branching
void vp_main();
}
static inline uint64_t vp_range(const char *name, uint64_t lo, uint64_t hi, unsigned bits = 64) {
  uint64_t v = vp_sym(name, bits);
  vp_assume(v >= lo);
  vp_assume(v <= hi);
  return v;
}
// a value in [0,n), made concrete by forking
static inline unsigned vp_choice(const char *name, unsigned n) {
  uint64_t v = vp_sym(name, 8);
  vp_assume(v < n);
  return (unsigned)vp_concrete(v);
}
