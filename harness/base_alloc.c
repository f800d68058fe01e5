/* base allocators.  VF_MODE 1: global allocator, history VF_OPS; 2: pool of
 * fixed-size chunks, growth; 3: linear allocator; 4: pool, two threads. */
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "base_alloc_linear.h"
#include "os_model.h"
#include "vf_models.h"
#include "utils_common.h"
#ifndef VF_OOM
#define VF_OOM 0
#endif
#define NMAX 560
static uintptr_t addr[NMAX];
static size_t len[NMAX];
static bool live[NMAX];
static int n;
void os_unmapped(uintptr_t a, size_t l) {
    bool ok = true;
    for (int i = 0; i < n; i++)
        if (live[i])
            ok &= (addr[i] + len[i] <= a) | (addr[i] >= a + l);
    VF_ASSERT(ok, "no memory in use goes back to the OS");
}
/* a new block: inside one OS block, apart from the others */
static void got(void *q, size_t sz, size_t al) {
    uintptr_t p = (uintptr_t)q;
    int b = os_block(p);
    VF_ASSERT(b >= 0, "a block lies in memory obtained from the OS");
    VF_ASSERT((sz <= os_len[b]) & (p - os_base[b] <= os_len[b] - sz),
              "a block has room for the requested size");
    VF_ASSERT(p % al == 0, "a block has the requested alignment");
    bool ok = true;
    for (int i = 0; i < n; i++)
        if (live[i] && os_block(addr[i]) == b)
            ok &= (addr[i] + len[i] <= p) | (p + sz <= addr[i]);
    VF_ASSERT(ok, "blocks in use do not overlap");
    VF_ASSERT(n < NMAX, "harness");
    addr[n] = p;
    len[n] = sz;
    live[n++] = true;
}
#if VF_MODE == 1
static size_t sizes(void) {
    switch (nd_pick(4)) {
    case 0:
        return nd_range(0, 300);
    case 1:
        return nd_range(4000, 9000);
    case 2:
        return nd_range((1ull << 32) - 10000, 1ull << 33);
    default:
        return nd_range(~0ull - 10000, ~0ull);
    }
}
void VF_ENTRY(void) {
    static const size_t als[] = {0, 1, 8, 64, 4096};
    const char ops[] = VF_OPS;
    os_budget = VF_OOM;
    for (unsigned o = 0; o + 1 < sizeof ops; o++) {
        if (ops[o] == 'a' || ops[o] == 'A') {
            size_t sz = ops[o] != 'a' ? nd_range(1, 250)
                                    : sizes();
            size_t al = als[ops[o] == 'a' ? nd_pick(5) : nd_pick(2) + 2];
            int ref0 = os_refused;
            void *q = (o & 1) && al == 8 ? umf_ba_global_alloc(sz)
                                         : umf_ba_global_aligned_alloc(sz, al);
            if (q) {
                VF_ASSERT(sz != 0, "nothing is given for a size of 0");
                got(q, sz, al ? al : 1);
                size_t u = umf_ba_global_malloc_usable_size(q);
                int b = os_block((uintptr_t)q);
                VF_ASSERT((u >= sz) & ((uintptr_t)q - os_base[b] <=
                                       os_len[b] - u),
                          "the usable size covers the request and no more "
                          "than the memory there is");
                *(volatile char *)q = 1;
                VF_REACH("alloc");
            } else {
                VF_ASSERT((sz == 0) | (sz > (1ull << 31)) | (os_refused > ref0),
                          "a request is refused only without memory");
                VF_REACH("refused");
            }
        } else if (n) {
            int k = nd_pick(n);
            VF_ASSUME(live[k]);
            live[k] = false;
            umf_ba_global_free((void *)addr[k]);
            VF_REACH("free");
        }
    }
    for (int i = 0; i < n; i++)
        if (live[i]) {
            live[i] = false;
            umf_ba_global_free((void *)addr[i]);
        }
    umf_ba_global_free(NULL);
    umf_ba_destroy_global();
    VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
    VF_ASSERT(umf_ba_global_is_destroyed(), "the allocator is destroyed");
    umf_ba_global_free((void *)addr[0]);
    VF_ASSERT(vf_locks_live == 0 && vf_locks_held == 0, "no lock is left");
    VF_REACH("end");
}
#elif VF_MODE == 2
void VF_ENTRY(void) {
    static const size_t szs[] = {1, 8, 24, 300, 496};
    size_t sz = szs[nd_pick(5)];
    umf_ba_pool_t *p = umf_ba_create(sz);
    VF_ASSUME(p != NULL);
    umf_ba_free(p, NULL);
    int first = 0;
    if (VF_SMALL)
        os_len[0] = os_len[0];
    os_budget = VF_OOM;
    for (int i = 0; i < VF_N; i++) {
        if (os_n > 1 && !first) {
            first = i; /* the first pool is used up */
        }
        if (first && i > first + 4)
            break;
        void *q = umf_ba_alloc(p);
        if (!q) {
            VF_ASSERT(os_refused > 0, "a request is refused only without memory");
            VF_REACH("refused");
            continue;
        }
        got(q, sz, 8);
        memset(q, 0x5a, sz);
    }
    VF_ASSUME(os_n > 1);
    os_budget = 0;
    /* free any two, then take three */
    int k = (int)VF_FORK(nd_range(0, 1)) ? n - 1 : 0, j = nd_pick(2) ? 1 : n - 2;
    live[k] = false;
    umf_ba_free(p, (void *)addr[k]);
    live[j] = false;
    umf_ba_free(p, (void *)addr[j]);
    for (int i = 0; i < 3; i++) {
        void *q = umf_ba_alloc(p);
        VF_ASSERT(q != NULL, "a request is refused only without memory");
        got(q, sz, 8);
        memset(q, 0x5a, sz);
    }
    for (int i = 0; i < n; i++)
        if (live[i]) {
            VF_ASSERT(*(char *)addr[i] == 0x5a &&
                          ((char *)addr[i])[sz - 1] == 0x5a,
                      "the content of a block in use is left alone");
            live[i] = false;
            umf_ba_free(p, (void *)addr[i]);
        }
    umf_ba_destroy(p);
    VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
    VF_ASSERT(vf_locks_live == 0 && vf_locks_held == 0, "no lock is left");
    VF_REACH("end");
}
#elif VF_MODE == 3
void VF_ENTRY(void) {
    size_t psz = nd_range(0, VF_PSZ);
    umf_ba_linear_pool_t *p = umf_ba_linear_create(psz);
    VF_ASSUME(p != NULL);
    os_budget = VF_OOM;
    const char ops[] = VF_OPS;
    for (unsigned o = 0; o + 1 < sizeof ops; o++) {
        if (ops[o] == 'a' || ops[o] == 'A') {
            size_t sz = ops[o] == 'a' ? nd_range(0, 40000) : nd_u64();
            int ref0 = os_refused;
            void *q = umf_ba_linear_alloc(p, sz);
            if (q) {
                VF_ASSERT(sz != 0, "nothing is given for a size of 0");
                got(q, sz, 8);
                size_t c = umf_ba_linear_pool_contains_pointer(p, q);
                VF_ASSERT(c >= sz, "the allocator knows its own blocks");
                VF_REACH("alloc");
            } else {
                VF_ASSERT((sz == 0) | (sz > (1ull << 39)) | (os_refused > ref0),
                          "a request is refused only without memory");
                VF_REACH("refused");
            }
        } else if (ops[o] == 'X') {
            uintptr_t q = nd_u64();
            bool in = false;
            for (int i = 0; i < os_n; i++)
                if (os_live[i])
                    in |= (q >= os_base[i]) & (q - os_base[i] < os_len[i]);
            VF_ASSUME(!in);
            VF_ASSERT((umf_ba_linear_pool_contains_pointer(p, (void *)q) == 0) &
                          (umf_ba_linear_free(p, (void *)q) == -1),
                      "a foreign pointer is not accepted");
            VF_REACH("foreign");
        } else if (n) {
            int k = nd_pick(n);
            VF_ASSUME(live[k]);
            live[k] = false;
            VF_ASSERT(umf_ba_linear_free(p, (void *)addr[k]) == 0,
                      "a block in use can be freed");
            VF_REACH("free");
        }
    }
    for (int i = 0; i < n; i++)
        live[i] = false;
    umf_ba_linear_destroy(p);
    VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
    VF_ASSERT(vf_locks_live == 0 && vf_locks_held == 0, "no lock is left");
    VF_REACH("end");
}
#else
static umf_ba_pool_t *P;
static umf_ba_linear_pool_t *LP;
static void *mine[2][2];
static void worker(void *a) {
    int t = (int)(intptr_t)a;
    if (VF_LINEAR) {
        mine[t][0] = umf_ba_linear_alloc(LP, 3000);
        mine[t][1] = umf_ba_linear_alloc(LP, 2000);
        umf_ba_linear_free(LP, mine[t][0]);
        return;
    }
    mine[t][0] = umf_ba_alloc(P);
    if (VF_FREE)
        umf_ba_free(P, mine[t][0]);
    mine[t][1] = umf_ba_alloc(P);
}
void VF_ENTRY(void) {
    P = umf_ba_create(400);
    LP = umf_ba_linear_create(4000);
    VF_ASSUME(P && LP);
#ifdef VF_FILL
    /* use the pool up but for VF_FILL chunks */
    int k = 0, n0 = os_n;
    umf_ba_pool_t *T = umf_ba_create(400);
    VF_ASSUME(T != NULL);
    for (; os_n < n0 + 2; k++)
        (void)umf_ba_alloc(T);
    umf_ba_destroy(T);
    for (int i = 0; i < k - 1 - VF_FILL; i++)
        got(umf_ba_alloc(P), 400, 8);
#endif
    symx_spawn(worker, (void *)0);
    symx_spawn(worker, (void *)1);
    symx_join_all();
    for (int t = 0; t < 2; t++)
        for (int i = (VF_FREE || VF_LINEAR) ? 1 : 0; i < 2; i++) {
            VF_ASSERT(mine[t][i] != NULL, "a request is refused only without memory");
            got(mine[t][i], VF_LINEAR ? 2000 : 400, 8);
        }
    for (int i = 0; i < n; i++) {
        live[i] = false;
        if (VF_LINEAR)
            umf_ba_linear_free(LP, (void *)addr[i]);
        else
            umf_ba_free(P, (void *)addr[i]);
    }
    umf_ba_destroy(P);
    umf_ba_linear_destroy(LP);
    VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
    VF_REACH("end");
}
#endif
