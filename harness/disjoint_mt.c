/* D04: two threads in one disjoint pool (or two pools with shared limits). */
#include "memory_provider_internal.h"
#include "pool_disjoint_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider_ops.h>
#include <umf/pools/pool_disjoint.h>
int libumfInit(void) { return 0; }
#define NP 8
static struct {
    size_t n;
    bool live;
} P[NP];
static int np;
static uintptr_t base(int i) { return (1ull << 45) + ((uintptr_t)(NP - i) << 32); }
static umf_result_t up_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void up_fini(void *p) { (void)p; }
VF_QUIET static umf_result_t up_alloc(void *priv, size_t size, size_t al, void **ptr) {
    (void)priv, (void)al;
    symx_yield();
    if (np == NP)
        VF_LIMIT("provider blocks");
    P[np].n = size;
    P[np].live = true;
    *ptr = (void *)base(np++);
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_free(void *priv, void *ptr, size_t size) {
    (void)priv;
    symx_yield();
    for (int i = 0; i < np; i++)
        if (P[i].live && base(i) == (uintptr_t)ptr) {
            VF_ASSERT(P[i].n == size,
                      "memory goes back to the provider as it was obtained");
            P[i].live = false;
            return UMF_RESULT_SUCCESS;
        }
    VF_ASSERT(0, "only memory obtained from the provider goes back, once");
    return UMF_RESULT_SUCCESS;
}
static void up_err(void *p, const char **m, int32_t *e) { (void)p, (void)m, (void)e; }
static umf_result_t up_page(void *p, size_t s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_page2(void *p, void *s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *up_name(void *p) {
    (void)p;
    return "up";
}
VF_QUIET umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr, umf_alloc_info_t *o) {
    uintptr_t p = (uintptr_t)ptr;
    symx_yield();
    for (int i = 0; i < np; i++)
        if (P[i].live && p >= base(i) && p - base(i) < P[i].n) {
            o->base = (void *)base(i);
            o->baseSize = P[i].n;
            return UMF_RESULT_SUCCESS;
        }
    return UMF_RESULT_ERROR_INVALID_ARGUMENT;
}
static umf_memory_pool_ops_t *ops;
static void *pool[2];
#if VF_MODE == 2 || VF_MODE == 5
#define POOL(t) pool[t]
#else
#define POOL(t) pool[0]
#endif
/* what each thread holds, in use for everybody to see */
static struct {
    uintptr_t p;
    size_t n;
} H[2][2];
VF_QUIET static void note(int t, int k, uintptr_t p, size_t n) {
    bool in = false;
    for (int i = 0; i < np; i++)
        in |= P[i].live && p >= base(i) && p - base(i) + n <= P[i].n;
    VF_ASSERT(in, "a block lies inside live memory of the provider");
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
            VF_ASSERT(H[i][j].p == 0 || p + n <= H[i][j].p ||
                          H[i][j].p + H[i][j].n <= p,
                      "live blocks share no byte");
    H[t][k].p = p;
    H[t][k].n = n;
}
VF_QUIET static size_t forget(int t, int k) {
    H[t][k].p = 0;
    return H[t][k].n;
}
static void *get(int t, int k, size_t n, size_t al) {
    void *p = al ? ops->aligned_malloc(POOL(t), n, al) : ops->malloc(POOL(t), n);
    VF_ASSERT(p != NULL, "a request succeeds while there is memory");
    VF_ASSERT(!al || ((uintptr_t)p & (al - 1)) == 0, "a block has the alignment asked for");
    note(t, k, (uintptr_t)p, n);
    return p;
}
static void put(int t, void *p, int k) {
    size_t us = ops->malloc_usable_size(POOL(t), p);
    VF_ASSERT(us >= forget(t, k), "a block is usable up to the size asked for");
    VF_ASSERT(ops->free(POOL(t), p) == UMF_RESULT_SUCCESS,
              "freeing a live block succeeds");
}
static size_t s0, s1;
static void w0(void *a) {
    (void)a;
    void *p = get(0, 0, s0, 0);
#if VF_MODE == 1 || VF_MODE == 4
    void *q = get(0, 1, s0, 0);
    put(0, p, 0);
    put(0, q, 1);
#else
    put(0, p, 0);
#endif
}
static void *big;
static void w1(void *a) {
    (void)a;
#if VF_MODE == 3
    put(1, big, 1);
#elif VF_MODE == 4
    void *p = get(1, 0, s1, 64);
    put(1, p, 0);
    p = get(1, 0, s1, 8192);
    put(1, p, 0);
#elif VF_MODE == 2 || VF_MODE == 5
    put(1, get(1, 0, s1, 0), 0);
#else
    void *p = get(1, 0, s1, 0);
    void *q = get(1, 1, s1, 0);
    put(1, p, 0);
    put(1, q, 1);
#endif
}
void VF_ENTRY(void) {
    umf_memory_provider_ops_t po;
    memset(&po, 0, sizeof po);
    po.version = UMF_VERSION_CURRENT;
    po.initialize = up_init;
    po.finalize = up_fini;
    po.alloc = up_alloc;
    po.free = up_free;
    po.get_last_native_error = up_err;
    po.get_recommended_page_size = up_page;
    po.get_min_page_size = up_page2;
    po.get_name = up_name;
    umf_memory_provider_handle_t prov;
    VF_MADE(umfMemoryProviderCreate(&po, &P, &prov) == UMF_RESULT_SUCCESS);
    ops = umfDisjointPoolOps();
    umf_disjoint_pool_params_handle_t par;
    VF_MADE(umfDisjointPoolParamsCreate(&par) == UMF_RESULT_SUCCESS);
    umfDisjointPoolParamsSetSlabMinSize(par, 128);
    umfDisjointPoolParamsSetMaxPoolableSize(par, VF_MODE == 4 ? 16384 : 128);
    umfDisjointPoolParamsSetCapacity(par, VF_CAP);
    umfDisjointPoolParamsSetMinBucketSize(par, 64);
    umf_disjoint_pool_shared_limits_handle_t lim = NULL;
    size_t limit = ~0ull;
#if VF_MODE == 2 || VF_MODE == 5
    limit = 128 * nd_pick(3);
    lim = umfDisjointPoolSharedLimitsCreate(limit);
    umfDisjointPoolParamsSetSharedLimits(par, lim);
#endif
    long live0 = vf_ba_live;
    for (int i = 0; i < 2; i++)
        VF_ASSUME(ops->initialize(prov, par, &pool[i]) == UMF_RESULT_SUCCESS);
    s0 = nd_range(1, 128);
    s1 = nd_range(1, 128);
#if VF_MODE == 1
    VF_ASSUME(s0 <= 64 && s1 <= 64);
#endif
#if VF_MODE == 3
    VF_ASSUME(s0 > 64);
    /* a block straight from the provider; slabs come and go below it */
    big = get(1, 1, 4096, 0);
    (void)s1;
#endif
    symx_spawn(w0, NULL);
    symx_spawn(w1, NULL);
    symx_join_all();
    size_t sum = 0;
    for (int i = 0; i < NP; i++)
        sum += P[i].live ? P[i].n : 0;
    VF_ASSERT(sum <= limit, "pooled memory stays within the shared limit");
    for (int i = 0; i < 2; i++)
        ops->finalize(pool[i]);
    for (int i = 0; i < NP; i++)
        VF_ASSERT(!P[i].live, "destroying the pool returns its memory to the provider");
    VF_ASSERT(vf_ba_live == live0, "destroying the pool releases its metadata");
    VF_REACH("end");
}
