/* coarse.h: bounded histories of operations with symbolic arguments.
 * VF_OPS: operation kinds; VF_ALS: alignments; VF_PROV: memory comes from the
 * upstream provider (else one fixed region); VF_OOM: how many metadata
 * allocations may fail; VF_CBFAIL: upstream split/merge may fail. */
#include "coarse.h"
#include "vf.h"
#include "vf_models.h"
#include <string.h>
#ifndef VF_ALS
#define VF_ALS 0, 8192
#endif
#ifndef VF_PROV
#define VF_PROV 0
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_CBFAIL
#define VF_CBFAIL 0
#endif
#ifndef VF_MAXSZ
#define VF_MAXSZ (1ull << 40)
#endif
#define NMAX 8
static uintptr_t addr[NMAX];
static size_t len[NMAX];
static bool live[NMAX];
static int n;
static uintptr_t rbase[NMAX]; /* regions */
static size_t rlen[NMAX];
static bool rlive[NMAX];
static int nr;
static uintptr_t top = 1ull << 41;

/* the upstream's own view: pieces, told of every split and merge */
#define PMAX 16
static uintptr_t pb[PMAX];
static size_t pl[PMAX];
static int np;
static int piece(uintptr_t b, size_t l) {
    for (int i = 0; i < np; i++)
        if (pb[i] == b && pl[i] == l)
            return i;
    return -1;
}
static umf_result_t cb_split(void *p, void *ptr, size_t t, size_t f) {
    VF_ASSERT((f > 0) & (f < t), "the upstream is asked for a proper split only");
    (void)p;
    if (VF_CBFAIL && nd_choice())
        return UMF_RESULT_ERROR_UNKNOWN;
#if VF_PROV && !VF_OOM
    int i = piece((uintptr_t)ptr, t);
    VF_ASSERT(i >= 0, "the upstream is asked to split what it knows");
    pl[i] = f;
    pb[np] = (uintptr_t)ptr + f;
    pl[np++] = t - f;
#endif
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_merge(void *p, void *lo, void *hi, size_t t) {
    (void)p;
    VF_ASSERT(((uintptr_t)lo < (uintptr_t)hi) &
                  ((uintptr_t)hi - (uintptr_t)lo < t),
              "the upstream is asked for a proper merge only");
    if (VF_CBFAIL && nd_choice())
        return UMF_RESULT_ERROR_UNKNOWN;
#if VF_PROV && !VF_OOM
    int i = piece((uintptr_t)lo, (uintptr_t)hi - (uintptr_t)lo);
    int j = piece((uintptr_t)hi, t - ((uintptr_t)hi - (uintptr_t)lo));
    VF_ASSERT(i >= 0 && j >= 0, "the upstream is asked to merge what it knows");
    pl[i] = t;
    np--;
    pb[j] = pb[np];
    pl[j] = pl[np];
#endif
    return UMF_RESULT_SUCCESS;
}
#if VF_PROV
static size_t given, taken;
static umf_result_t cb_alloc(void *p, size_t size, size_t al, void **out) {
    (void)p;
    VF_ASSERT(al != 0 && (al & (al - 1)) == 0 && al >= VF_PAGE,
              "the upstream is asked for an aligned region");
    if (nr >= 3 || nd_choice())
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    /* regions may or may not touch each other */
    uintptr_t a = top + (nd_choice() ? nd_range(1, 1ull << 20) * VF_PAGE : 0);
    a = (a + al - 1) & ~(uintptr_t)(al - 1);
    rbase[nr] = a;
    rlen[nr] = size;
    rlive[nr++] = true;
    top = a + size;
    pb[np] = a;
    pl[np++] = size;
    given += size;
    *out = (void *)a;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_free(void *p, void *ptr, size_t size) {
    (void)p;
    (void)ptr;
#if !VF_OOM
    int i = piece((uintptr_t)ptr, size);
    VF_ASSERT(i >= 0, "the upstream gets back what it knows, once");
    np--;
    pb[i] = pb[np];
    pl[i] = pl[np];
#endif
    taken += size;
    if (nr > 0 && rbase[nr - 1] == (uintptr_t)ptr && rlen[nr - 1] == size &&
        rlive[nr - 1])
        rlive[nr - 1] = false, given -= size, taken -= size;
    return UMF_RESULT_SUCCESS;
}
#endif
static void check_live(int k) {
    bool in = false;
    for (int r = 0; r < nr; r++)
        in |= (addr[k] >= rbase[r]) & (len[k] <= rlen[r]) &
              (addr[k] - rbase[r] <= rlen[r] - len[k]);
    VF_ASSERT(in | (nr > 1), "the allocation lies inside the managed region");
    bool sep = true;
    for (int i = 0; i < n; i++)
        if (i != k && live[i])
            sep &= (addr[i] + len[i] <= addr[k]) |
                   (addr[k] + len[k] <= addr[i]);
    VF_ASSERT(sep, "live allocations do not overlap");
}
static void check_stats(coarse_t *c) {
    size_t used = 0, all = 0;
    int nl = 0;
    for (int i = 0; i < n; i++)
        if (live[i])
            used += len[i], nl++;
    for (int i = 0; i < nr; i++)
        if (rlive[i])
            all += rlen[i];
    coarse_stats_t s = coarse_get_stats(c);
    VF_ASSERT(s.used_size == used, "used size is the sum of live allocations");
    VF_ASSERT(s.alloc_size == all, "alloc size is the sum of the regions");
    VF_ASSERT(VF_OOM || s.num_all_blocks == (size_t)nl + s.num_free_blocks,
              "every block is either live or free");
}
void VF_ENTRY(void) {
    static const size_t als[] = {VF_ALS};
    size_t total = 0;
    uintptr_t base = 0;
    coarse_params_t p;
    memset(&p, 0, sizeof p);
    p.provider = (void *)1;
    p.page_size = VF_PAGE;
    p.cb.split = cb_split;
    p.cb.merge = cb_merge;
#if VF_PROV
    p.cb.alloc = cb_alloc;
    p.cb.free = cb_free;
#endif
    p.allocation_strategy = VF_STRAT;
    coarse_t *c;
    VF_MADE(coarse_new(&p, &c) == UMF_RESULT_SUCCESS);
#if !VF_PROV
    base = nd_range(1ull << 22, 1ull << 34) * VF_PAGE;
    total = nd_range(1, VF_MAXSZ);
    VF_ASSUME(coarse_add_memory_fixed(c, (void *)base, total) ==
              UMF_RESULT_SUCCESS);
    rbase[0] = base;
    rlen[0] = total;
    rlive[0] = true;
    nr = 1;
#endif
    vf_ba_fail_budget = VF_OOM;
    const char ops[] = VF_OPS;
    void *none = NULL;
    VF_ASSERT(coarse_alloc(c, 0, als[nd_pick(sizeof als / sizeof *als)],
                           &none) != UMF_RESULT_SUCCESS,
              "a request for no bytes is refused");
    for (unsigned o = 0; o + 1 < sizeof ops; o++) {
        int live0 = 0;
        for (int i = 0; i < n; i++)
            live0 += live[i];
        switch (ops[o]) {
        case 'a':   /* must succeed (the history is about what follows) */
        case 'b':   /* likewise, no padding */
        case 'A': { /* may fail */
            size_t sz = nd_range(1, 2 * VF_MAXSZ);
            size_t al = ops[o] == 'b' ? als[0]
                                      : als[nd_pick(sizeof als / sizeof *als)];
            if (ops[o] == 'b')
                VF_ASSUME(sz % VF_PAGE == 0);
            void *q = NULL;
            umf_result_t r = coarse_alloc(c, sz, al, &q);
            if (ops[o] != 'A')
                VF_ASSUME(r == UMF_RESULT_SUCCESS);
            if (r == UMF_RESULT_SUCCESS) {
                addr[n] = (uintptr_t)q;
                len[n] = sz;
                live[n] = true;
                if (al)
                    VF_ASSERT(((uintptr_t)q & (al - 1)) == 0,
                              "the result has the requested alignment");
                n++;
                check_live(n - 1);
                VF_REACH("alloc ok");
            } else
                VF_REACH("alloc refused");
            break;
        }
        case 'F':
        case 'f': {
            if (!live0)
                break;
            int k = nd_pick(n);
            VF_ASSUME(live[k]);
            umf_result_t r =
                coarse_free(c, (void *)addr[k], o & 1 ? len[k] : 0);
            VF_ASSERT(r == UMF_RESULT_SUCCESS ||
                          (VF_OOM && r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY),
                      "a live allocation can be freed");
            live[k] = false;
            break;
        }
        case 'X': { /* frees that must be refused */
            uintptr_t q = nd_u64();
            size_t s = nd_u64();
            for (int i = 0; i < n; i++)
                VF_ASSUME(!live[i] || q != addr[i] || (s != 0 && s != len[i]));
            VF_ASSUME(q != 0);
            VF_ASSERT(coarse_free(c, (void *)q, s) ==
                          UMF_RESULT_ERROR_INVALID_ARGUMENT,
                      "freeing anything but a live allocation is refused");
            VF_REACH("bad free");
            break;
        }
        case 'S': {
            if (!live0)
                break;
            int k = nd_pick(n);
            VF_ASSUME(live[k]);
            size_t t = nd_range(0, 1ull << 42), f = nd_range(0, 1ull << 42);
            umf_result_t r = coarse_split(c, (void *)addr[k], t, f);
            if (t != len[k] || f == 0 || f >= t) {
                VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                          "an improper split is refused");
                VF_REACH("bad split");
            } else if (!VF_CBFAIL && !VF_OOM)
                VF_ASSERT(r == UMF_RESULT_SUCCESS, "a proper split is done");
            if (r == UMF_RESULT_SUCCESS) {
                VF_REACH("split");
                addr[n] = addr[k] + f;
                len[n] = t - f;
                live[n] = true;
                len[k] = f;
                n++;
            }
            break;
        }
        case 'M': {
            if (live0 < 2)
                break;
            int k = nd_pick(n), j = nd_pick(n);
            VF_ASSUME(live[k] && live[j] && k != j);
            size_t t = nd_range(0, 1ull << 43);
            umf_result_t r =
                coarse_merge(c, (void *)addr[k], (void *)addr[j], t);
            bool ok = (addr[k] + len[k] == addr[j]) & (t == len[k] + len[j]);
            if (r == UMF_RESULT_SUCCESS) {
                VF_ASSERT(ok, "only adjacent allocations are merged");
                VF_REACH("merge");
                len[k] = t;
                live[j] = false;
            } else {
                VF_ASSERT(!ok || VF_CBFAIL || VF_PROV,
                          "adjacent allocations can be merged");
                VF_REACH("bad merge");
            }
            break;
        }
        case 'N': {
            size_t sz = nd_range(1, VF_MAXSZ);
            (void)coarse_add_memory_from_provider(c, sz);
            break;
        }
        case 'D': /* give everything back: full coalescing */
            vf_ba_fail_budget = 0;
            for (int i = 0; i < n; i++)
                if (live[i]) {
                    VF_ASSERT(coarse_free(c, (void *)addr[i], len[i]) ==
                                  UMF_RESULT_SUCCESS,
                              "a live allocation can be freed");
                    live[i] = false;
                }
            if (!VF_PROV && !VF_CBFAIL && !VF_OOM) {
                coarse_stats_t s = coarse_get_stats(c);
                VF_ASSERT(s.num_all_blocks == 1 && s.num_free_blocks == 1,
                          "an unused region is one free block again");
                if (total > VF_PAGE) {
                    void *q = NULL;
                    VF_ASSERT(coarse_alloc(c, total - VF_PAGE, 0, &q) ==
                                      UMF_RESULT_SUCCESS &&
                                  (uintptr_t)q == base,
                              "an unused region can be allocated again");
                    coarse_free(c, q, 0);
                }
            }
            VF_REACH("drained");
            break;
        }
        check_stats(c);
        VF_OBSERVE(coarse_get_stats(c).used_size);
        VF_OBSERVE(coarse_get_stats(c).num_all_blocks);
    }
    vf_ba_fail_budget = 0;
    for (int i = 0; i < n; i++)
        if (live[i])
            coarse_free(c, (void *)addr[i], 0);
    coarse_delete(c);
#if VF_PROV
    VF_ASSERT(taken == given, "every region goes back at destruction");
    VF_ASSERT(np == 0 || VF_OOM, "the upstream has nothing left");
#endif
    VF_ASSERT(vf_ba_live == 0, "no metadata is leaked");
    VF_ASSERT(vf_locks_held == 0 && vf_locks_live == 0, "no lock is left held");
    VF_REACH("end");
}
