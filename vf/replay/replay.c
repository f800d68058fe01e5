/* Native run of a harness: the solver's assignment (VF_REPLAY: one number per
 * line, then "sched" and one thread number per line) is read back in order.
 * Exit codes: 0 completed, 42 property violated, 77 an assumption does not
 * hold, 78 the recording ran out, 79 schedule cannot be followed. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef TSAN
#include <sanitizer/tsan_interface.h>
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned);
void __tsan_switch_to_fiber(void *, unsigned);
#define NOSAN __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))
#else
#define NOSAN
#endif
static unsigned long long *dr;
static size_t ndr, idr;
static int *sc;
static size_t nsc, isc;
static int concrete_check;
NOSAN static void fin(int rc) {
    fflush(NULL);
    _Exit(rc);
}
static void start(void) __attribute__((constructor));
NOSAN static void start(void) {
    const char *n = getenv("VF_REPLAY");
    FILE *f = n ? fopen(n, "r") : NULL;
    char b[64];
    int s = 0;
    dr = calloc(1 << 16, sizeof *dr);
    sc = calloc(1 << 16, sizeof *sc);
    while (f && fscanf(f, "%63s", b) == 1) {
        if (!strcmp(b, "sched"))
            s = 1;
        else if (s && nsc < 1 << 16)
            sc[nsc++] = atoi(b);
        else if (ndr < 1 << 16)
            dr[ndr++] = strtoull(b, NULL, 10);
    }
    if (f)
        fclose(f);
    (void)concrete_check;
}
NOSAN uint64_t symx_nd(void) {
    if (idr >= ndr) {
        fprintf(stderr, "replay: ran out of recorded values\n");
        fin(78);
    }
    return dr[idr++];
}
NOSAN uint64_t symx_nd_bool(void) { return symx_nd() != 0; }
NOSAN void symx_assume(int c) {
    if (!c) {
        fprintf(stderr, "replay: an assumption does not hold\n");
        fin(77);
    }
}
NOSAN uint64_t symx_nd_range(uint64_t lo, uint64_t hi) {
    uint64_t v = symx_nd();
    symx_assume(v >= lo && v <= hi);
    return v;
}
NOSAN void symx_assert(int c, const char *msg) {
    if (!c) {
        fprintf(stderr, "replay: VIOLATED %s\n", msg);
        fin(42);
    }
}
NOSAN void symx_reach(const char *tag) { fprintf(stderr, "reach %s\n", tag); }
NOSAN uint64_t symx_fork(uint64_t v) { return v; }
NOSAN void symx_observe(uint64_t v) {
    fprintf(stderr, "observe %llu\n", (unsigned long long)v);
}
NOSAN void symx_limit(const char *what) {
    fprintf(stderr, "replay: limit %s\n", what);
    fin(77);
}
NOSAN int symx_valid(const void *p, size_t n) { (void)n; return p != NULL; }

/* threads: coroutines following the recorded schedule */
#define MAXT 8
static struct {
    ucontext_t c;
    void (*fn)(void *);
    void *arg;
    int done;
    int *wait0;
    int joinall;
    void *fiber;
} T[MAXT];
static int nt = 1, cur;
NOSAN static int runnable(int t) {
    if (T[t].done)
        return 0;
    if (T[t].wait0)
        return *T[t].wait0 == 0;
    if (T[t].joinall)
        for (int i = 0; i < nt; i++)
            if (i != t && !T[i].done)
                return 0;
    return 1;
}
NOSAN static void go(int t) {
    if (t == cur)
        return;
    int from = cur;
    cur = t;
#ifdef TSAN
    __tsan_switch_to_fiber(T[t].fiber, 1 /* no synchronisation */);
#endif
    swapcontext(&T[from].c, &T[t].c);
}
NOSAN static void schedule(int forced) {
    if (nt < 2)
        return;
    if (forced) {
        int any = 0, live = 0;
        for (int i = 0; i < nt; i++) {
            any |= i != cur && runnable(i);
            live |= !T[i].done;
        }
        if (!any && !live)
            return;
        if (!any) {
            fprintf(stderr, "replay: VIOLATED deadlock\n");
            fin(42);
        }
    }
    if (isc >= nsc && getenv("VF_ENDLESS")) { /* fair from here on */
        for (int i = 1; i <= nt; i++) {
            int t = (cur + i) % nt;
            if (t == cur ? !forced : runnable(t)) {
                T[t].wait0 = NULL;
                go(t);
                return;
            }
        }
    }
    if (isc >= nsc) {
        fprintf(stderr, "replay: schedule exhausted\n");
        fin(79);
    }
    int t = sc[isc++];
    if (t < 0 || t >= nt || (t != cur && !runnable(t)))
        fin(79);
    T[t].wait0 = NULL;
    go(t);
}
NOSAN static void tramp(void) {
    T[cur].fn(T[cur].arg);
    T[cur].done = 1;
#ifdef TSAN
    __tsan_release(&T[0]);
#endif
    schedule(1);
    fin(79);
}
NOSAN void symx_spawn(void (*fn)(void *), void *arg) {
    int i = nt++;
    if (i >= MAXT)
        fin(79);
#ifdef TSAN
    if (!T[0].fiber)
        T[0].fiber = __tsan_get_current_fiber();
    T[i].fiber = __tsan_create_fiber(0);
#endif
    T[i].fn = fn;
    T[i].arg = arg;
    getcontext(&T[i].c);
    size_t sz = 1 << 20;
    T[i].c.uc_stack.ss_sp = malloc(sz);
    T[i].c.uc_stack.ss_size = sz;
    T[i].c.uc_link = NULL;
    makecontext(&T[i].c, tramp, 0);
}
NOSAN void symx_yield(void) { schedule(0); }
NOSAN void symx_wait0(int *p) {
    T[cur].wait0 = p;
    if (!runnable(cur))
        schedule(1);
    else
        T[cur].wait0 = NULL;
}
NOSAN void symx_join_all(void) {
    T[cur].joinall = 1;
    if (!runnable(cur))
        schedule(1);
    T[cur].joinall = 0;
#ifdef TSAN
    __tsan_acquire(&T[0]);
#endif
}
NOSAN int symx_tid(void) { return cur; }
NOSAN void symx_acquire(void *p) {
#ifdef TSAN
    __tsan_acquire(p);
#else
    (void)p;
#endif
}
NOSAN void symx_release(void *p) {
#ifdef TSAN
    __tsan_release(p);
#else
    (void)p;
#endif
}
void vf_entry(void);
NOSAN int main(void) {
    vf_entry();
    fprintf(stderr, "replay: harness completed without a violation\n");
    fin(0);
    return 0;
}
#ifdef ASAN
const char *__asan_default_options(void) {
    return "detect_odr_violation=0:detect_leaks=0:exitcode=43:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:handle_abort=0";
}
#endif
#ifdef TSAN
const char *__tsan_default_options(void) {
    return "exitcode=43:halt_on_error=1:report_signal_unsafe=0";
}
#endif
NOSAN void *symx_aligned_alloc(size_t al, size_t n) {
    void *p = NULL;
    if (al < 8)
        al = 8;
    if (posix_memalign(&p, al, n))
        return NULL;
    return p;
}
