/* Harness vocabulary.  In the symbolic run every draw is a solver variable
 * (engine/symx.cpp); in the native replay (vf/replay/replay.c) the same
 * functions read the solver's assignment back, in the same order.
 *
 * VF_ASSERT: the property.  VF_ASSUME: a stated bound or documented
 * precondition.  VF_REACH: a point that must be reached (vacuity witness).
 * VF_FORK: split on the concrete values of an index.  VF_OBSERVE: a value
 * compared between a symbolic path and its native replay. */
#ifndef VF_H
#define VF_H 1
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

uint64_t symx_nd(void);
uint64_t symx_nd_bool(void);
uint64_t symx_nd_range(uint64_t lo, uint64_t hi);
void symx_assume(int c);
void symx_assert(int c, const char *msg);
void symx_reach(const char *tag);
uint64_t symx_fork(uint64_t v);
void symx_observe(uint64_t v);
void symx_limit(const char *what);
void symx_spawn(void (*fn)(void *), void *arg);
void symx_yield(void);
void symx_wait0(int *p);
void symx_join_all(void);
int symx_tid(void);
void symx_acquire(void *p);
void symx_release(void *p);
int symx_valid(const void *p, size_t n);
#define nd_u64() symx_nd()
#define nd_bool() ((bool)symx_nd_bool())
#define nd_range(lo, hi) symx_nd_range((lo), (hi))
/* set-up that nothing can refuse */
#define VF_MADE(c) VF_ASSERT(c, "what a history needs can be made")
#define VF_ASSUME(c) symx_assume(!!(c))
#define VF_ASSERT(c, msg) symx_assert(!!(c), msg)
#define VF_REACH(tag) symx_reach(tag)
#define VF_FORK(v) symx_fork(v)
#define VF_OBSERVE(v) symx_observe((uint64_t)(v))
#define VF_LIMIT(w) symx_limit(w)

/* pick one of n alternatives, as a concrete value on each path */
static inline unsigned nd_pick(unsigned n) {
    return (unsigned)VF_FORK(nd_range(0, n - 1));
}
/* a boolean, split on: concrete on each path */
static inline bool nd_choice(void) { return nd_pick(2) != 0; }
/* a function of the harness whose accesses are outside the race analysis */
#define VF_QUIET __attribute__((noinline, section(".vfq"), no_sanitize("thread")))
#ifndef VF_ENTRY
#define VF_ENTRY vf_entry
#endif
#endif
