/* Provider and pool handles: creation and dispatch. */
#include "ipc_cache.h"
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider_ops.h>
umf_memory_tracker_handle_t TRACKER;
static int n_libinit;
int libumfInit(void) {
    n_libinit++;
    return 0;
}
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_LOCKFAIL
#define VF_LOCKFAIL 0
#endif
/* ---- a provider that records how it is called */
static int n_init, n_fini, init_fails;
static char privA, privB;
static int fid;       /* which function */
static int ncalls;
static uint64_t A[6]; /* its arguments */
static umf_result_t res;
static uint64_t out;
#define REC(f, p, a, b, c)                                                     \
    (fid = f, ncalls++, A[0] = (uintptr_t)(p), A[1] = (uint64_t)(a),           \
     A[2] = (uint64_t)(b), A[3] = (uint64_t)(c))
static umf_result_t p_init(void *params, void **priv) {
    VF_ASSERT(n_libinit > 0, "the library is initialised first");
    REC(1, params, 0, 0, 0);
    n_init++;
    if (init_fails)
        return res;
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void p_fini(void *p) { REC(2, p, 0, 0, 0), n_fini++; }
static umf_result_t p_alloc(void *p, size_t s, size_t al, void **ptr) {
    REC(3, p, s, al, 0);
    if (res == UMF_RESULT_SUCCESS)
        *ptr = (void *)out;
    return res;
}
static umf_result_t p_free(void *p, void *ptr, size_t s) {
    REC(4, p, ptr, s, 0);
    return res;
}
static const char *msg0 = "native";
static void p_err(void *p, const char **m, int32_t *e) {
    REC(5, p, 0, 0, 0);
    *m = msg0;
    *e = 77;
}
static umf_result_t p_rps(void *p, size_t s, size_t *o) {
    REC(6, p, s, 0, 0);
    *o = out;
    return res;
}
static umf_result_t p_mps(void *p, void *s, size_t *o) {
    REC(7, p, s, 0, 0);
    *o = out;
    return res;
}
static const char *p_name(void *p) {
    REC(8, p, 0, 0, 0);
    return msg0;
}
static umf_result_t p_pl(void *p, void *ptr, size_t s) {
    REC(9, p, ptr, s, 0);
    return res;
}
static umf_result_t p_pf(void *p, void *ptr, size_t s) {
    REC(10, p, ptr, s, 0);
    return res;
}
static umf_result_t p_merge(void *p, void *lo, void *hi, size_t t) {
    REC(11, p, lo, hi, t);
    return res;
}
static umf_result_t p_split(void *p, void *ptr, size_t t, size_t f) {
    REC(12, p, ptr, t, f);
    return res;
}
static umf_result_t p_ihs(void *p, size_t *s) {
    REC(13, p, 0, 0, 0);
    *s = out;
    return res;
}
static umf_result_t p_ig(void *p, const void *ptr, size_t s, void *d) {
    REC(14, p, ptr, s, d);
    return res;
}
static umf_result_t p_ip(void *p, void *d) {
    REC(15, p, d, 0, 0);
    return res;
}
static umf_result_t p_io(void *p, void *d, void **ptr) {
    REC(16, p, d, 0, 0);
    *ptr = (void *)out;
    return res;
}
static umf_result_t p_ic(void *p, void *ptr, size_t s) {
    REC(17, p, ptr, s, 0);
    return res;
}
static umf_memory_provider_ops_t full(void) {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = p_init;
    o.finalize = p_fini;
    o.alloc = p_alloc;
    o.free = p_free;
    o.get_last_native_error = p_err;
    o.get_recommended_page_size = p_rps;
    o.get_min_page_size = p_mps;
    o.get_name = p_name;
    o.ext.purge_lazy = p_pl;
    o.ext.purge_force = p_pf;
    o.ext.allocation_merge = p_merge;
    o.ext.allocation_split = p_split;
    o.ipc.get_ipc_handle_size = p_ihs;
    o.ipc.get_ipc_handle = p_ig;
    o.ipc.put_ipc_handle = p_ip;
    o.ipc.open_ipc_handle = p_io;
    o.ipc.close_ipc_handle = p_ic;
    return o;
}
#if VF_MODE == 1 /* which tables of operations are accepted */
static bool has[17];
static int ln;
#define MAYBE(f)                                                               \
    do {                                                                       \
        has[ln] = nd_bool();                                                   \
        if (!has[ln])                                                          \
            o.f = NULL;                                                        \
        ln++;                                                                  \
    } while (0)
static void fail(void) {
    umf_memory_provider_ops_t o = full();
    bool ok = true, all = true, none = true;
#if VF_GROUP == 0
    MAYBE(initialize);
    MAYBE(finalize);
    MAYBE(alloc);
    MAYBE(free);
    MAYBE(get_last_native_error);
    MAYBE(get_recommended_page_size);
    MAYBE(get_min_page_size);
    MAYBE(get_name);
    for (int i = 0; i < ln; i++)
        ok &= has[i];
    (void)all, (void)none;
#else
    MAYBE(ipc.get_ipc_handle_size);
    MAYBE(ipc.get_ipc_handle);
    MAYBE(ipc.put_ipc_handle);
    MAYBE(ipc.open_ipc_handle);
    MAYBE(ipc.close_ipc_handle);
    for (int i = 0; i < ln; i++)
        all &= has[i], none &= !has[i];
    MAYBE(ext.allocation_merge);
    MAYBE(ext.allocation_split);
    ok = (all | none) & (has[5] == has[6]);
    MAYBE(ext.purge_lazy);
    MAYBE(ext.purge_force);
#endif
    o.version = (uint32_t)nd_range(0, ~0u);
    init_fails = nd_choice();
    res = (umf_result_t)nd_range(1, 9);
    umf_memory_provider_handle_t h = NULL;
    vf_ba_fail_budget = 1;
    umf_result_t r = umfMemoryProviderCreate(&o, &privA, &h);
    vf_ba_fail_budget = 0;
    if (!ok)
        VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT && n_init == 0,
                  "an incomplete table of operations is refused");
    else if (vf_ba_failed)
        VF_ASSERT(r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && n_init == 0,
                  "out of memory is reported");
    else
        VF_ASSERT(n_init == 1 && A[0] == (uintptr_t)&privA &&
                      r == (init_fails ? res : UMF_RESULT_SUCCESS),
                  "the provider is initialised once with its parameters");
    if (r != UMF_RESULT_SUCCESS) {
        VF_ASSERT(h == NULL && vf_ba_live == 0 && n_fini == 0,
                  "a failed creation leaves nothing behind");
        VF_REACH("refused");
        return;
    }
    VF_REACH("created");
#if VF_GROUP == 1
    /* missing optional operations report that they are not supported */
    ncalls = 0;
    res = UMF_RESULT_SUCCESS;
    void *p = NULL;
    size_t s = 0;
    umf_result_t want = all ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_NOT_SUPPORTED;
    VF_ASSERT(umfMemoryProviderGetIPCHandleSize(h, &s) == want &&
                  umfMemoryProviderOpenIPCHandle(h, &privB, &p) == want &&
                  umfMemoryProviderGetIPCHandle(h, &privB, 1, &privA) == want &&
                  umfMemoryProviderPutIPCHandle(h, &privB) == want &&
                  umfMemoryProviderCloseIPCHandle(h, &privB, 1) == want &&
                  ncalls == (all ? 5 : 0),
              "missing IPC operations are reported as not supported");
    ncalls = 0;
    want = has[5] ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_NOT_SUPPORTED;
    VF_ASSERT(umfMemoryProviderAllocationSplit(h, &privB, 2, 1) == want &&
                  umfMemoryProviderAllocationMerge(h, (void *)16, (void *)32,
                                                   32) == want &&
                  ncalls == (has[5] ? 2 : 0),
              "missing split and merge are reported as not supported");
    want = has[7] ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_NOT_SUPPORTED;
    VF_ASSERT(umfMemoryProviderPurgeLazy(h, &privB, 2) == want,
              "a missing purge is reported as not supported");
    want = has[8] ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_NOT_SUPPORTED;
    VF_ASSERT(umfMemoryProviderPurgeForce(h, &privB, 2) == want,
              "a missing purge is reported as not supported");
#endif
    umfMemoryProviderDestroy(h);
    VF_ASSERT(n_fini == 1 && fid == 2 && A[0] == (uintptr_t)&privA,
              "the provider is finalised once");
    VF_ASSERT(vf_ba_live == 0, "nothing is leaked");
}
#endif
static bool is(int f, const void *p, uint64_t a, uint64_t b, uint64_t c) {
    return fid == f && A[0] == (uintptr_t)p && A[1] == a && A[2] == b && A[3] == c;
}
#if VF_MODE == 2 /* every call reaches its provider unchanged */
static void dispatch(void) {
    umf_memory_provider_ops_t o = full();
    umf_memory_provider_handle_t h[2], hh;
    VF_MADE(!umfMemoryProviderCreate(&o, &privA, &h[0]));
    VF_MADE(!umfMemoryProviderCreate(&o, &privB, &h[1]));
    for (int step = 0; step < VF_STEPS; step++) {
        int w = nd_pick(3);
        hh = w == 2 ? NULL : h[w];
        char *priv = w ? &privB : &privA;
        uint64_t a = nd_u64(), b = nd_u64(), c = nd_u64();
        res = (umf_result_t)nd_range(0, 9);
        out = nd_u64();
        ncalls = 0;
        umf_memory_provider_handle_t last = umfGetLastFailedMemoryProvider();
        void *ptr = (void *)1;
        size_t sz = 1;
        umf_result_t r;
        bool setlast = true, argok = hh != NULL, good = true;
        int f = 3 + nd_pick(15);
        switch (f) {
        case 3: {
            bool nul = nd_choice();
            r = umfMemoryProviderAlloc(hh, a, b, nul ? NULL : &ptr);
            argok &= !nul;
            good = is(3, priv, a, b, 0) && (res || ptr == (void *)out);
            break;
        }
        case 4:
            r = umfMemoryProviderFree(hh, (void *)a, b);
            good = is(4, priv, a, b, 0);
            break;
        case 5: {
            if (!hh)
                continue; /* precondition */
            const char *m = NULL;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(hh, &m, &e);
            r = res;
            setlast = false;
            good = is(5, priv, 0, 0, 0) && m == msg0 && e == 77;
            break;
        }
        case 6: {
            bool nul = nd_choice();
            r = umfMemoryProviderGetRecommendedPageSize(hh, a, nul ? NULL : &sz);
            argok &= !nul;
            good = is(6, priv, a, 0, 0) && sz == out;
            break;
        }
        case 7: {
            bool nul = nd_choice();
            r = umfMemoryProviderGetMinPageSize(hh, (void *)a, nul ? NULL : &sz);
            argok &= !nul;
            good = is(7, priv, a, 0, 0) && sz == out;
            break;
        }
        case 8: {
            const char *n = umfMemoryProviderGetName(hh);
            r = hh ? res : UMF_RESULT_ERROR_INVALID_ARGUMENT;
            setlast = false;
            good = is(8, priv, 0, 0, 0) && n == msg0;
            break;
        }
        case 9:
            r = umfMemoryProviderPurgeLazy(hh, (void *)a, b);
            argok &= a != 0;
            good = is(9, priv, a, b, 0);
            break;
        case 10:
            r = umfMemoryProviderPurgeForce(hh, (void *)a, b);
            argok &= a != 0;
            good = is(10, priv, a, b, 0);
            break;
        case 11:
            r = umfMemoryProviderAllocationMerge(hh, (void *)a, (void *)b, c);
            argok &= (a != 0) & (a < b) & (c != 0) & (b - a < c);
            good = is(11, priv, a, b, c);
            break;
        case 12:
            r = umfMemoryProviderAllocationSplit(hh, (void *)a, b, c);
            argok &= (a != 0) & (c != 0) & (c < b);
            good = is(12, priv, a, b, c);
            break;
        case 13: {
            bool nul = nd_choice();
            r = umfMemoryProviderGetIPCHandleSize(hh, nul ? NULL : &sz);
            argok &= !nul;
            setlast = false;
            good = is(13, priv, 0, 0, 0) && sz == out;
            break;
        }
        case 14:
            r = umfMemoryProviderGetIPCHandle(hh, (void *)a, b, (void *)c);
            argok &= (a != 0) & (c != 0);
            setlast = false;
            good = is(14, priv, a, b, c);
            break;
        case 15:
            r = umfMemoryProviderPutIPCHandle(hh, (void *)a);
            argok &= a != 0;
            setlast = false;
            good = is(15, priv, a, 0, 0);
            break;
        case 16: {
            bool nul = nd_choice();
            r = umfMemoryProviderOpenIPCHandle(hh, (void *)a, nul ? NULL : &ptr);
            argok &= (a != 0) & !nul;
            setlast = false;
            good = is(16, priv, a, 0, 0) && ptr == (void *)out;
            break;
        }
        default:
            r = umfMemoryProviderCloseIPCHandle(hh, (void *)a, b);
            argok &= a != 0;
            setlast = false;
            good = is(17, priv, a, b, 0);
            break;
        }
        if (argok) {
            VF_ASSERT(ncalls == 1 && good,
                      "a call reaches its provider's operation unchanged, once");
            VF_ASSERT(r == res, "the provider's result is returned");
            if (setlast)
                VF_ASSERT(umfGetLastFailedMemoryProvider() ==
                              (res != UMF_RESULT_SUCCESS ? hh : last),
                          "the provider that failed last is remembered");
            VF_REACH("call");
        } else {
            VF_ASSERT(ncalls == 0 && r == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                      "invalid arguments are refused");
            VF_REACH("refused");
        }
        if (!setlast)
            VF_ASSERT(umfGetLastFailedMemoryProvider() == last,
                      "the provider that failed last is remembered");
    }
    umfMemoryProviderDestroy(h[0]);
    umfMemoryProviderDestroy(h[1]);
    umfMemoryProviderDestroy(NULL);
    VF_ASSERT(vf_ba_live == 0 && n_fini == 2, "nothing is leaked");
}
#endif
/* ---- a pool that records how it is called */
static int q_ninit, q_nfini, q_fail, q_fini_late;
static umf_memory_provider_handle_t q_prov;
static umf_result_t q_init(umf_memory_provider_handle_t pr, void *params, void **pool) {
    VF_ASSERT(n_libinit > 0, "the library is initialised first");
    q_ninit++;
    q_prov = pr;
    if (q_fail)
        return res;
    *pool = params;
    return UMF_RESULT_SUCCESS;
}
static void q_fini(void *p) {
    q_fini_late |= n_fini > 0;
    REC(22, p, 0, 0, 0), q_nfini++;
}
static void *q_malloc(void *p, size_t s) {
    REC(23, p, s, 0, 0);
    return (void *)out;
}
static void *q_calloc(void *p, size_t n, size_t s) {
    REC(24, p, n, s, 0);
    return (void *)out;
}
static void *q_realloc(void *p, void *ptr, size_t s) {
    REC(25, p, ptr, s, 0);
    return (void *)out;
}
static void *q_aligned(void *p, size_t s, size_t a) {
    REC(26, p, s, a, 0);
    return (void *)out;
}
static size_t q_usable(void *p, void *ptr) {
    REC(27, p, ptr, 0, 0);
    return out;
}
static umf_result_t q_free(void *p, void *ptr) {
    REC(28, p, ptr, 0, 0);
    return res;
}
static umf_result_t q_err(void *p) {
    REC(29, p, 0, 0, 0);
    return res;
}
static umf_memory_pool_ops_t pops(void) {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = q_init;
    o.finalize = q_fini;
    o.malloc = q_malloc;
    o.calloc = q_calloc;
    o.realloc = q_realloc;
    o.aligned_malloc = q_aligned;
    o.malloc_usable_size = q_usable;
    o.free = q_free;
    o.get_last_allocation_error = q_err;
    return o;
}
#if VF_MODE == 3 /* creation of a pool is all or nothing */
static void pool_create(void) {
    umf_memory_provider_ops_t o = full();
    umf_memory_pool_ops_t q = pops();
    umf_memory_provider_handle_t h;
    VF_MADE(!umfMemoryProviderCreate(&o, &privA, &h));
    long live0 = vf_ba_live;
    int maps0 = vf_maps_live, locks0 = vf_locks_live;
    unsigned flags = (unsigned)nd_range(0, 3);
    q_fail = nd_choice();
    res = (umf_result_t)nd_range(1, 9);
    umf_memory_pool_handle_t pool = NULL;
    vf_ba_fail_budget = VF_OOM;
    vf_lock_init_may_fail = VF_LOCKFAIL;
    bool badarg = nd_choice();
    n_libinit = 0;
    umf_result_t r;
    if (badarg) {
        int k = nd_pick(3);
        r = umfPoolCreate(k == 0 ? NULL : &q, k == 1 ? NULL : h, &privB, flags,
                          k == 2 ? NULL : &pool);
        VF_REACH("bad");
    } else
        r = umfPoolCreate(&q, h, &privB, flags, &pool);
    vf_ba_fail_budget = 0;
    vf_lock_init_may_fail = 0;
    VF_ASSERT(n_fini == 0, "creating a pool never destroys the provider");
    if (r != UMF_RESULT_SUCCESS) {
        VF_ASSERT(badarg | q_fail | (vf_ba_failed > 0) | VF_LOCKFAIL,
                  "a pool is created unless something fails");
        VF_ASSERT(!badarg | (r == UMF_RESULT_ERROR_INVALID_ARGUMENT),
                  "invalid arguments are refused");
        VF_ASSERT(q_ninit == 0 || (q_fail && r == res),
                  "the pool's own error is returned");
        VF_ASSERT(q_nfini == 0 && vf_ba_live == live0 && vf_maps_live == maps0 &&
                      vf_locks_live == locks0,
                  "a failed creation leaves nothing behind");
        VF_REACH("refused");
        umfMemoryProviderDestroy(h);
    } else {
        VF_ASSERT(!badarg && q_ninit == 1 && !q_fail,
                  "a pool is created only if nothing failed");
        umf_memory_provider_handle_t up = NULL;
        VF_ASSERT(umfPoolGetMemoryProvider(pool, &up) == UMF_RESULT_SUCCESS &&
                      up == h,
                  "a pool names the provider it was created from");
        VF_ASSERT((q_prov == h) == !!(flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING),
                  "allocations are tracked unless that is disabled");
        void *t = &privA;
        VF_ASSERT(umfPoolGetTag(pool, &t) == UMF_RESULT_SUCCESS && t == NULL,
                  "a new pool has no tag");
        uint64_t t1 = nd_u64(), t2 = nd_u64();
        VF_ASSERT(umfPoolSetTag(pool, (void *)t1, NULL) == UMF_RESULT_SUCCESS,
                  "a tag can be set");
        VF_ASSERT(umfPoolSetTag(pool, (void *)t2, &t) == UMF_RESULT_SUCCESS &&
                      (uint64_t)t == t1,
                  "setting a tag returns the old one");
        VF_ASSERT(umfPoolGetTag(pool, &t) == UMF_RESULT_SUCCESS &&
                      (uint64_t)t == t2,
                  "the tag is the one set last");
        VF_ASSERT(umfPoolSetTag(NULL, (void *)t1, &t) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfPoolGetTag(NULL, &t) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfPoolGetTag(pool, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      umfPoolGetMemoryProvider(pool, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                      (uint64_t)t == t2,
                  "invalid arguments are refused");
        VF_REACH("created");
        umfPoolDestroy(pool);
        VF_ASSERT(q_nfini == 1, "the pool is finalised once");
        VF_ASSERT(!q_fini_late, "the pool is finalised before its provider");
        if (flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER)
            VF_ASSERT(n_fini == 1, "an owned provider is destroyed with the pool");
        else {
            VF_ASSERT(n_fini == 0, "a provider not owned outlives the pool");
            umfMemoryProviderDestroy(h);
        }
        VF_ASSERT(A[0] == (uintptr_t)&privA, "the provider's own state is finalised");
    }
    VF_ASSERT(n_fini == 1, "the provider is destroyed once");
}
#endif
#if VF_MODE == 4 /* every call reaches its pool unchanged */
static void pool_dispatch(void) {
    umf_memory_provider_ops_t o = full();
    umf_memory_pool_ops_t q = pops();
    umf_memory_provider_handle_t h;
    umf_memory_pool_handle_t P[2], pool;
    static char priv[2];
    VF_MADE(!umfMemoryProviderCreate(&o, &privA, &h));
    VF_MADE(!umfPoolCreate(&q, h, &priv[0], 0, &P[0]));
    umf_memory_provider_handle_t tp[2];
    tp[0] = q_prov;
    VF_MADE(!umfPoolCreate(&q, h, &priv[1], 0, &P[1]));
    tp[1] = q_prov;
    /* each pool holds one block */
    uint64_t base[2], len[2];
    for (int i = 0; i < 2; i++) {
        base[i] = nd_range(4096, 1ull << 46);
        len[i] = nd_range(1, 1ull << 40);
        out = base[i];
        if (i)
            VF_ASSUME((base[0] + len[0] <= base[1]) | (base[1] + len[1] <= base[0]));
        void *p;
        VF_ASSUME(!umfMemoryProviderAlloc(tp[i], len[i], 0, &p));
    }
    for (int step = 0; step < VF_STEPS; step++) {
        int w = nd_pick(3);
        pool = w == 2 ? NULL : P[w];
        char *pr = &priv[w & 1];
        uint64_t a = nd_u64(), b = nd_u64();
        res = (umf_result_t)nd_range(0, 9);
        out = nd_u64();
        ncalls = 0;
        uint64_t r = 0, want = pool ? out : 0;
        bool good = true;
        switch (nd_pick(8)) {
        case 0:
            r = (uint64_t)umfPoolMalloc(pool, a);
            good = is(23, pr, a, 0, 0);
            break;
        case 1:
            r = (uint64_t)umfPoolCalloc(pool, a, b);
            good = is(24, pr, a, b, 0);
            break;
        case 2:
            r = (uint64_t)umfPoolRealloc(pool, (void *)a, b);
            good = is(25, pr, a, b, 0);
            break;
        case 3:
            r = (uint64_t)umfPoolAlignedMalloc(pool, a, b);
            good = is(26, pr, a, b, 0);
            break;
        case 4:
            r = umfPoolMallocUsableSize(pool, (void *)a);
            good = is(27, pr, a, 0, 0);
            break;
        case 5:
            r = umfPoolFree(pool, (void *)a);
            want = pool ? res : UMF_RESULT_ERROR_INVALID_ARGUMENT;
            good = is(28, pr, a, 0, 0);
            break;
        case 6:
            r = umfPoolGetLastAllocationError(pool);
            want = pool ? res : UMF_RESULT_ERROR_INVALID_ARGUMENT;
            good = is(29, pr, 0, 0, 0);
            break;
        case 7: { /* free of an address: to the pool that holds it */
            int own = a - base[0] < len[0] ? 0 : a - base[1] < len[1] ? 1 : 2;
            VF_ASSERT(umfPoolByPtr((void *)a) == (own == 2 ? NULL : P[own]),
                      "an address belongs to the pool whose memory holds it");
            r = umfFree((void *)a);
            if (own == 2) {
                VF_ASSERT(ncalls == 0 && r == UMF_RESULT_SUCCESS,
                          "a foreign address is left alone");
                VF_REACH("foreign");
                continue;
            }
            want = res;
            pool = P[own];
            good = is(28, &priv[own], a, 0, 0);
            break;
        }
        }
        VF_ASSERT(r == want, "the pool's result is returned");
        VF_ASSERT(pool ? ncalls == 1 && good : ncalls == 0,
                  "a call reaches its pool's operation unchanged, once");
        VF_REACH("call");
    }
    res = UMF_RESULT_SUCCESS;
    for (int i = 0; i < 2; i++) {
        umfMemoryProviderFree(tp[i], (void *)base[i], len[i]);
        umfPoolDestroy(P[i]);
    }
    umfMemoryProviderDestroy(h);
}
#endif
#if VF_MODE == 6 /* what a pool asks of its provider reaches the provider beneath */
static void tracked(void) {
    umf_memory_provider_ops_t o = full();
    umf_memory_pool_ops_t q = pops();
    umf_memory_provider_handle_t h[2], tp[2];
    umf_memory_pool_handle_t P[2];
    char *priv[2] = {&privA, &privB};
    for (int i = 0; i < 2; i++) {
        VF_MADE(!umfMemoryProviderCreate(&o, priv[i], &h[i]));
        VF_MADE(!umfPoolCreate(&q, h[i], NULL, nd_choice() ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0, &P[i]));
        tp[i] = q_prov;
    }
    for (int step = 0; step < VF_STEPS; step++) {
        int w = nd_pick(2);
        uint64_t a = nd_u64(), b = nd_u64(), want = out = nd_u64();
        VF_ASSUME(a != 0);
        res = (umf_result_t)nd_range(0, 9);
        ncalls = 0;
        size_t sz = 1;
        umf_result_t r = res;
        bool good = true;
        switch (nd_pick(8)) {
        case 0: {
            const char *m = NULL;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(tp[w], &m, &e);
            good = is(5, priv[w], 0, 0, 0) && m == msg0 && e == 77;
            break;
        }
        case 1:
            r = umfMemoryProviderGetRecommendedPageSize(tp[w], a, &sz);
            good = is(6, priv[w], a, 0, 0) && sz == want;
            break;
        case 2:
            r = umfMemoryProviderGetMinPageSize(tp[w], (void *)a, &sz);
            good = is(7, priv[w], a, 0, 0) && sz == want;
            break;
        case 3:
            good = umfMemoryProviderGetName(tp[w]) == msg0 && is(8, priv[w], 0, 0, 0);
            break;
        case 4:
            r = umfMemoryProviderPurgeLazy(tp[w], (void *)a, b);
            good = is(9, priv[w], a, b, 0);
            break;
        case 5:
            r = umfMemoryProviderPurgeForce(tp[w], (void *)a, b);
            good = is(10, priv[w], a, b, 0);
            break;
        case 6:
            r = umfMemoryProviderGetIPCHandleSize(tp[w], &sz);
            good = is(13, priv[w], 0, 0, 0) && sz == want;
            break;
        default: /* size and alignment of an allocation, its result */
            if (res == UMF_RESULT_SUCCESS)
                continue; /* T01, T02 */
            void *p = NULL;
            r = umfMemoryProviderAlloc(tp[w], a, b, &p);
            good = is(3, priv[w], a, b, 0) && p == NULL;
            break;
        }
        VF_ASSERT(ncalls == 1 && good, "a call reaches the pool's own provider unchanged, once");
        VF_ASSERT(r == res, "the provider's result is returned");
        VF_REACH("call");
    }
    for (int i = 0; i < 2; i++) {
        umfPoolDestroy(P[i]);
        umfMemoryProviderDestroy(h[i]);
    }
}
#endif
#if VF_MODE == 5 /* two threads exchange a pool's tag */
static umf_memory_pool_handle_t TP_;
static uint64_t nw[2], old[2];
static void tagger(void *a) {
    int i = a != NULL;
    void *o = NULL;
    VF_ASSERT(umfPoolSetTag(TP_, (void *)nw[i], &o) == UMF_RESULT_SUCCESS, "a tag can be set");
    old[i] = (uint64_t)o;
}
static void reader(void *a) {
    (void)a;
    void *o = NULL;
    VF_ASSERT(umfPoolGetTag(TP_, &o) == UMF_RESULT_SUCCESS &&
                  (!o || (uint64_t)o == nw[0] || (uint64_t)o == nw[1]),
              "a tag that is read was set");
}
static void tags(void) {
    umf_memory_provider_ops_t o = full();
    umf_memory_pool_ops_t q = pops();
    umf_memory_provider_handle_t h;
    VF_MADE(!umfMemoryProviderCreate(&o, &privA, &h));
    VF_MADE(!umfPoolCreate(&q, h, &privB, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &TP_));
    nw[0] = nd_range(1, 1ull << 46), nw[1] = nd_range(1, 1ull << 46);
    VF_ASSUME(nw[0] != nw[1]);
    symx_spawn(tagger, NULL);
    symx_spawn(tagger, &privA);
    symx_spawn(reader, NULL);
    symx_join_all();
    void *t = NULL;
    umfPoolGetTag(TP_, &t);
    VF_ASSERT((old[0] == 0 && old[1] == nw[0] && (uint64_t)t == nw[1]) ||
                  (old[1] == 0 && old[0] == nw[1] && (uint64_t)t == nw[0]),
              "of two tags set at once each is current or handed to the other");
    umfPoolDestroy(TP_);
}
#endif
void VF_ENTRY(void) {
#if VF_MODE == 1
    fail();
#elif VF_MODE == 2
    dispatch();
#else
    TRACKER = umfMemoryTrackerCreate();
    VF_MADE(umfIpcCacheGlobalInit() == UMF_RESULT_SUCCESS);
#if VF_MODE == 3
    pool_create();
#elif VF_MODE == 5
    tags();
#elif VF_MODE == 6
    tracked();
#else
    pool_dispatch();
#endif
    umfIpcCacheGlobalTearDown();
    umfMemoryTrackerDestroy(TRACKER);
    VF_ASSERT(vf_ba_live == 0 && vf_maps_live == 0 && vf_bapools_live == 0 &&
                  vf_locks_live == 0 && vf_locks_held == 0,
              "nothing is leaked");
#endif
    VF_REACH("end");
}
