/* D01-D03: the disjoint pool over a model provider.  Histories VF_OPS:
 *  a malloc, A aligned malloc, s malloc of a small size, F free any live block,
 *  f free the newest live block, D free all, C destroy the pool and make a new
 *  one with the same limits, U ask the usable size of a block. */
#include "memory_provider_internal.h"
#include "pool_disjoint_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider_ops.h>
#include <umf/pools/pool_disjoint.h>
int libumfInit(void) { return 0; }
#ifndef VF_OPS
#define VF_OPS "aaFa"
#endif
#ifndef VF_SLABS
#define VF_SLABS 0, 64, 256, 4096
#endif
#ifndef VF_MINB
#define VF_MINB 8
#endif
#ifndef VF_PAGES
#define VF_PAGES 4096
#endif
#ifndef VF_ALS
#define VF_ALS 1, 64, 4096, 8192
#endif
#ifndef VF_CAPS
#define VF_CAPS 0, 1, 2
#endif
#ifndef VF_MAXSZ
#define VF_MAXSZ (~0ull)
#endif
#ifndef VF_MAXP
#define VF_MAXP (~0ull)
#endif
#ifndef VF_MINP
#define VF_MINP 0
#endif
#ifndef VF_LIM
#define VF_LIM 0
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_UPFAIL
#define VF_UPFAIL 0
#endif
#ifndef VF_TRACE
#define VF_TRACE 0
#endif
#ifndef VF_RES
#define VF_RES UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC
#endif
#define NELEM(a) (sizeof(a) / sizeof((a)[0]))
#define NP 12
#ifndef VF_NB
#define VF_NB 8
#endif
#define NB VF_NB
/* upstream blocks */
static struct up {
    uintptr_t base;
    size_t n, al;
    bool live, direct;
} P[NP];
static int np, upfail, nrefused;
static size_t page;
static char priv_tag;
static umf_result_t up_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void up_fini(void *p) { (void)p; }
static umf_result_t up_alloc(void *priv, size_t size, size_t al, void **ptr) {
    VF_ASSERT(priv == &priv_tag, "the pool uses its own provider");
    if (upfail > 0 && nd_choice()) {
        upfail--;
        nrefused++;
        return VF_RES;
    }
    if (size >> 32) { /* no provider has that much */
        nrefused++;
        return VF_RES;
    }
    VF_ASSERT(size > 0, "the provider is never asked for nothing");
    if (np == NP)
        VF_LIMIT("provider blocks");
    size_t a = page ? page : 1;
    if (al > a)
        a = al;
    uintptr_t b = nd_range(1ull << 45, 1ull << 46);
    VF_ASSUME((b & (a - 1)) == 0);
    for (int i = 0; i < np; i++)
        VF_ASSUME(!P[i].live | (b + size <= P[i].base) | (P[i].base + P[i].n <= b));
    P[np].base = b;
    P[np].n = size;
    P[np].al = al;
    P[np].direct = false;
    P[np++].live = true;
    *ptr = (void *)b;
    return UMF_RESULT_SUCCESS;
}
static struct blk {
    uintptr_t p;
    size_t n;
    int up;
    bool live;
} B[NB];
static int nb;
static int freeing = -1;
static bool destroying;
static umf_result_t up_free(void *priv, void *ptr, size_t size) {
    (void)priv;
    for (int i = 0; i < np; i++)
        if (P[i].live && P[i].base == (uintptr_t)ptr) {
            VF_ASSERT(P[i].n == size,
                      "memory goes back to the provider as it was obtained");
            for (int j = 0; j < nb; j++)
                VF_ASSERT(!B[j].live || j == freeing || B[j].up != i || destroying,
                          "memory goes back to the provider only when no "
                          "block in it is live");
            P[i].live = false;
            return UMF_RESULT_SUCCESS;
        }
    VF_ASSERT(0, "only memory obtained from the provider goes back, once");
    return UMF_RESULT_SUCCESS;
}
static void up_err(void *p, const char **m, int32_t *e) { (void)p, (void)m, (void)e; }
static umf_result_t up_page(void *p, size_t s, size_t *o) {
    (void)p, (void)s;
    *o = page ? page : 1;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_page2(void *p, void *s, size_t *o) {
    (void)p, (void)s;
    *o = page;
    return page ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_NOT_SUPPORTED;
}
static const char *up_name(void *p) {
    (void)p;
    return "up";
}
/* what the tracker answers for pointers of the provider (T01) */
umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr, umf_alloc_info_t *o) {
    uintptr_t p = (uintptr_t)ptr;
    for (int i = 0; i < np; i++)
        if (P[i].live && p >= P[i].base && p - P[i].base < P[i].n) {
            o->base = (void *)P[i].base;
            o->baseSize = P[i].n;
            return UMF_RESULT_SUCCESS;
        }
    return UMF_RESULT_ERROR_INVALID_ARGUMENT;
}
static umf_memory_pool_ops_t *ops;
static umf_memory_provider_handle_t prov;
static umf_disjoint_pool_params_handle_t par;
static umf_disjoint_pool_shared_limits_handle_t lim;
static void *pool;
static size_t maxp, slabmin, cap, limit;

static int inside(uintptr_t p, size_t n) {
    for (int i = 0; i < np; i++)
        if (P[i].live && p >= P[i].base && p - P[i].base < P[i].n)
            return p + n <= P[i].base + P[i].n && p + n >= p ? i : -1;
    return -1;
}
static void add(void *ptr, size_t size, size_t al) {
    uintptr_t p = (uintptr_t)ptr;
    VF_ASSERT(size != 0, "an empty request gets no block");
    VF_ASSERT((p & (al - 1)) == 0, "a block has the alignment asked for");
    int u = inside(p, size);
    VF_ASSERT(u >= 0, "a block lies inside memory of the provider");
    size_t us = ops->malloc_usable_size(pool, ptr);
    VF_ASSERT(us >= size, "a block is usable up to the size asked for");
    VF_ASSERT(us <= P[u].n && p + us <= P[u].base + P[u].n,
              "the usable part of a block lies inside memory of the provider");
    for (int i = 0; i < nb; i++)
        VF_ASSERT(!B[i].live | (p + us <= B[i].p) | (B[i].p + B[i].n <= p),
                  "live blocks share no byte");
    if (nb == NB)
        VF_LIMIT("blocks");
    B[nb].p = p;
    B[nb].n = us;
    B[nb].up = u;
    B[nb++].live = true;
}
static void empties(void) {
    size_t sum = 0;
    for (int i = 0; i < np; i++) {
        bool used = !P[i].live;
        for (int j = 0; j < nb; j++)
            used |= B[j].live && B[j].up == i;
        if (!used)
            sum += P[i].n;
    }
    VF_ASSERT(!lim || sum <= limit,
              "pooled memory stays within the shared limit");
}
static void do_alloc(char c) {
    size_t size = c == 's' ? 64 : nd_u64(), al = 1;
    VF_ASSUME(size <= VF_MAXSZ);
    if (c == 'A') {
        size_t als[] = {VF_ALS};
        al = als[nd_pick(NELEM(als))];
    }
    int k = np, r = nrefused + vf_ba_failed;
    upfail = VF_UPFAIL;
    vf_ba_fail_budget = VF_OOM;
    void *p = c == 'A' ? ops->aligned_malloc(pool, size, al) : ops->malloc(pool, size);
    upfail = 0;
    vf_ba_fail_budget = 0;
    if (!p) {
        VF_ASSERT(size == 0 || nrefused + vf_ba_failed > r || size + al < size,
                  "a request is refused only if empty, overflowing or when "
                  "memory runs out");
        VF_ASSERT(np == k || !P[k].live,
                  "a refused request keeps nothing of the provider");
        if (size) {
            umf_result_t e = ops->get_last_allocation_error(pool);
            VF_ASSERT(e == VF_RES || e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY ||
                          e == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                      "a refused request leaves its reason");
        }
        VF_REACH("refused");
        return;
    }
    VF_REACH("alloc");
    add(p, size, al);
    if (size > maxp && size + al > size) {
        VF_ASSERT(np == k + 1 && P[k].n >= size && P[k].base == (uintptr_t)p,
                  "a big request goes straight to the provider");
        P[k].direct = true;
        VF_REACH("direct");
    } else if (np == k)
        VF_REACH("from pool");
}
static void do_free(int i) {
    freeing = i;
    umf_result_t r = ops->free(pool, (void *)B[i].p);
    freeing = -1;
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "freeing a live block succeeds");
    if (B[i].n && P[B[i].up].live)
        VF_REACH("kept");
    B[i].live = false;
    empties();
}
static int nlive(void) {
    int k = 0;
    for (int i = 0; i < nb; i++)
        k += B[i].live;
    return k;
}
static void destroy(void) {
    destroying = true;
    ops->finalize(pool);
    destroying = false;
    for (int i = 0; i < np; i++) {
        bool big = false;
        for (int j = 0; j < nb; j++)
            big |= B[j].live && B[j].up == i && P[i].base == B[j].p;
        VF_ASSERT(!P[i].live || big,
                  "destroying the pool returns its memory to the provider");
    }
}
static bool create(void) {
    vf_ba_fail_budget = VF_OOM;
    vf_lock_init_may_fail = VF_OOM == 2;
    umf_result_t r = ops->initialize(prov, par, &pool);
    vf_lock_init_may_fail = false;
    vf_ba_fail_budget = 0;
    return r == UMF_RESULT_SUCCESS;
}
void vf_entry(void) {
    static const size_t slabs[] = {VF_SLABS}, pages[] = {VF_PAGES}, caps[] = {VF_CAPS};
    umf_memory_provider_ops_t po;
    memset(&po, 0, sizeof po);
    po.version = UMF_VERSION_CURRENT;
    po.initialize = up_init;
    po.finalize = up_fini;
    po.alloc = up_alloc;
    po.free = up_free;
    po.get_last_native_error = up_err;
    po.get_recommended_page_size = up_page;
    po.get_min_page_size = up_page2;
    po.get_name = up_name;
    page = pages[nd_pick(NELEM(pages))];
    umf_result_t r = umfMemoryProviderCreate(&po, &priv_tag, &prov);
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "provider");
    ops = umfDisjointPoolOps();
    r = umfDisjointPoolParamsCreate(&par);
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "params");
    slabmin = slabs[nd_pick(NELEM(slabs))];
    cap = caps[nd_pick(NELEM(caps))];
    maxp = nd_u64();
    VF_ASSUME(maxp >= VF_MINP && maxp <= VF_MAXP);
    umfDisjointPoolParamsSetSlabMinSize(par, slabmin);
    umfDisjointPoolParamsSetMaxPoolableSize(par, maxp);
    umfDisjointPoolParamsSetCapacity(par, cap);
    r = umfDisjointPoolParamsSetMinBucketSize(par, VF_MINB);
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "params");
    umfDisjointPoolParamsSetTrace(par, VF_TRACE);
    umfDisjointPoolParamsSetName(par, "p");
    if (VF_LIM) {
        limit = nd_u64();
        lim = umfDisjointPoolSharedLimitsCreate(limit);
        umfDisjointPoolParamsSetSharedLimits(par, lim);
    }
    long live0 = vf_ba_live;
    int maps0 = vf_maps_live, locks0 = vf_locks_live;
    if (!create()) {
        VF_ASSERT(vf_ba_live == live0 && vf_maps_live == maps0 && vf_locks_live == locks0,
                  "a failed creation keeps nothing");
        VF_REACH("not created");
        return;
    }
    size_t un = nd_u64();
    VF_ASSERT(ops->calloc(pool, 1, un) == NULL && ops->get_last_allocation_error(pool) == UMF_RESULT_ERROR_NOT_SUPPORTED &&
                  ops->realloc(pool, NULL, un) == NULL && ops->get_last_allocation_error(pool) == UMF_RESULT_ERROR_NOT_SUPPORTED,
              "unsupported requests are refused as such");
    for (const char *c = VF_OPS; *c; c++)
        switch (*c) {
        case 'a':
        case 'A':
        case 's':
            do_alloc(*c);
            break;
        case 'F': {
            int i = (int)nd_pick(NB);
            if (i < nb && B[i].live)
                do_free(i);
            else
                return;
            break;
        }
        case 'f': {
            int i = nb - 1;
            while (i >= 0 && !B[i].live)
                i--;
            if (i < 0)
                return;
            do_free(i);
            break;
        }
        case 'D':
            for (int i = 0; i < nb; i++)
                if (B[i].live)
                    do_free(i);
            break;
        case 'C':
            destroy();
            nb = np = 0;
            VF_ASSERT(vf_ba_live == live0 && vf_maps_live == maps0 && vf_locks_live == locks0,
                      "destroying the pool releases its metadata");
            if (!create())
                return;
            break;
        case 'K': { /* everything is free: memory is pooled if allowed */
            size_t sum = 0;
            bool poolable = false;
            VF_ASSERT(nlive() == 0, "history");
            for (int i = 0; i < np; i++) {
                sum += P[i].live ? P[i].n : 0;
                poolable |= !P[i].direct & (P[i].n <= limit) & (cap > 0);
            }
            VF_ASSERT(!poolable || sum > 0,
                      "memory is pooled when the limits allow it");
            break;
        }
        }
    destroy();
    VF_ASSERT(vf_ba_live == live0 && vf_maps_live == maps0 && vf_locks_live == locks0,
              "destroying the pool releases its metadata");
    VF_REACH("end");
}
