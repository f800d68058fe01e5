/* W01: the scalable pool over a model of the TBB allocator, and the proxy pool.
 * VF_OPS: C create, M malloc, K calloc, R realloc, L aligned, F free, U usable
 * size, Q control query, D destroy, T the library is torn down. */
#include "base_alloc_global.h"
#include "libumf.h"
#include "memory_pool_internal.h"
#include "provider/provider_tracking.h"
#include "utils_load_library.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf.h>
#include <umf/memory_pool_ops.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#ifndef VF_OPS
#define VF_OPS "CMFD"
#endif
#ifndef VF_FAIL
#define VF_FAIL 0
#endif
void libumfInit(void) {}
void fini_tbb_global_state(void);
static int provobj, lib, is_open, opens, closes, missing = -1, nolib, budget, failed;
static size_t gran;
static bool keep;
/* --- the upstream provider --- */
#define NR 8
static struct {
    uintptr_t a;
    size_t n;
    int live;
} R[NR];
static int nr, pfail;
static size_t want, wantal;
static umf_result_t perr;
static bool fails(void) {
    if (budget > 0 && nd_choice()) {
        budget--;
        failed++;
        return true;
    }
    return false;
}
umf_result_t umfMemoryProviderAlloc(umf_memory_provider_handle_t h, size_t n, size_t al, void **r) {
    VF_ASSERT(h == (void *)&provobj, "memory comes from the pool's provider");
    VF_ASSERT(n == want && al == wantal, "the provider is asked for what is needed");
    if (fails()) {
        pfail++;
        perr = UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
        return perr;
    }
    if (nr == NR)
        VF_LIMIT("regions");
    R[nr].a = (1ull << 33) + ((uint64_t)nr << 20);
    R[nr].n = n;
    R[nr].live = 1;
    *r = (void *)R[nr++].a;
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfMemoryProviderFree(umf_memory_provider_handle_t h, void *p, size_t n) {
    VF_ASSERT(h == (void *)&provobj, "memory goes back to the pool's provider");
    for (int i = 0; i < nr; i++)
        if (R[i].live && R[i].a == (uintptr_t)p) {
            VF_ASSERT(n == R[i].n, "memory goes back with its size");
            if (fails()) {
                pfail++;
                perr = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                return perr;
            }
            R[i].live = 0;
            return UMF_RESULT_SUCCESS;
        }
    VF_ASSERT(0, "only live memory goes back");
    return UMF_RESULT_ERROR_UNKNOWN;
}
#ifndef VF_PROXY
/* --- TBB --- */
typedef struct policy {
    void *(*pAlloc)(intptr_t, size_t *);
    void (*pFree)(intptr_t, void *, size_t);
    size_t granularity;
    int version;
    unsigned fixed_pool : 1, keep_all_memory : 1, reserved : 30;
} policy;
static struct tpool {
    intptr_t id;
    policy pol;
    int live;
} TP[3];
static int ntp;
#define NB 6
static struct {
    _Alignas(64) unsigned char m[32];
    struct tpool *pool;
    size_t n;
    int raw; /* the region it lies in, or -1 */
    int live;
} B[NB];
static int nb, calls, pnull;
#define UP VF_ASSERT(is_open, "the allocator's library is open when it is called")
static int blk(void *p) {
    for (int i = 0; i < nb; i++)
        if ((void *)B[i].m == p)
            return i;
    return -1;
}
static struct tpool *cur;
static void *t_get(struct tpool *p, size_t n) {
    int raw = -1;
    if (nd_choice()) { /* it needs a new region */
        size_t rb = nd_range(1, 1ull << 40);
        want = rb, wantal = 0;
        int had = nr;
        void *q = p->pol.pAlloc(p->id, &rb);
        VF_ASSERT((q != NULL) == (nr == had + 1), "a failed region is reported to the allocator");
        if (!q)
            return NULL;
        VF_ASSERT(q == (void *)R[had].a && rb >= want, "the allocator gets the provider's memory");
        raw = had;
    } else if (fails()) {
        pnull++;
        return NULL;
    }
    if (nb == NB)
        VF_LIMIT("blocks");
    for (int i = 0; i < 32; i++)
        B[nb].m[i] = (unsigned char)(0xa0 + i);
    B[nb].pool = p, B[nb].n = n, B[nb].raw = raw, B[nb].live = 1;
    return B[nb++].m;
}
static size_t a_n, a_al;
static void *a_p;
static void *t_malloc(void *p, size_t n) {
    UP;
    VF_ASSERT(p == cur && cur->live, "the pool's own allocator is asked");
    calls++;
    a_n = n;
    return t_get(p, n);
}
static void *t_aligned(void *p, size_t n, size_t al) {
    UP;
    VF_ASSERT(p == cur && cur->live, "the pool's own allocator is asked");
    VF_ASSERT(n == a_n && al == a_al, "the allocator gets the request");
    calls++;
    return t_get(p, n);
}
static void *t_realloc(void *p, void *q, size_t n) {
    UP;
    VF_ASSERT(p == cur && cur->live, "the pool's own allocator is asked");
    VF_ASSERT(q == a_p && n == a_n, "the allocator gets the request");
    calls++;
    void *r = t_get(p, n);
    if (r && blk(q) >= 0)
        B[blk(q)].live = 0;
    return r;
}
static bool t_free(void *p, void *q) {
    UP;
    VF_ASSERT(p == cur && cur->live, "the pool's own allocator is asked");
    int i = blk(q);
    VF_ASSERT(i >= 0 && B[i].live && B[i].pool == p, "live blocks of the pool are freed");
    calls++;
    if (B[i].raw >= 0 && nd_choice()) {
        int f = pfail;
        cur->pol.pFree(cur->id, (void *)R[B[i].raw].a, R[B[i].raw].n);
        if (pfail != f)
            return false;
        B[i].raw = -1;
    } else if (fails())
        return false;
    B[i].live = 0;
    return true;
}
static size_t t_msize(void *p, void *q) {
    UP;
    VF_ASSERT(p == cur && q == a_p, "the pool's own allocator is asked");
    calls++;
    return B[blk(q)].n;
}
static void *t_identify(void *q) {
    UP;
    (void)q;
    return NULL;
}
static int t_create(intptr_t id, const policy *pol, void **out) {
    UP;
    VF_ASSERT(pol->version == 1 && !pol->fixed_pool && !pol->reserved, "the allocator's interface is used properly");
    VF_ASSERT(pol->granularity == gran && pol->keep_all_memory == keep, "the pool is made as its parameters say");
    if (fails())
        return (int)nd_range(1, 4);
    if (ntp == 3)
        VF_LIMIT("pools");
    TP[ntp].id = id, TP[ntp].pol = *pol, TP[ntp].live = 1;
    *out = &TP[ntp++];
    return 0;
}
static bool t_destroy(void *p) {
    UP;
    VF_ASSERT(p == cur && cur->live, "a pool's allocator is destroyed once");
    cur->live = 0;
    for (int i = 0; i < nr; i++) /* all its regions go back */
        for (int j = 0; j < nb; j++)
            if (R[i].live && B[j].pool == p && B[j].raw == i)
                cur->pol.pFree(cur->id, (void *)R[i].a, R[i].n);
    return true;
}
static const struct {
    const char *name;
    void *fn;
} SYM[] = {{"_ZN3rml11pool_mallocEPNS_10MemoryPoolEm", t_malloc},
           {"_ZN3rml12pool_reallocEPNS_10MemoryPoolEPvm", t_realloc},
           {"_ZN3rml19pool_aligned_mallocEPNS_10MemoryPoolEmm", t_aligned},
           {"_ZN3rml9pool_freeEPNS_10MemoryPoolEPv", t_free},
           {"_ZN3rml14pool_create_v1ElPKNS_13MemPoolPolicyEPPNS_10MemoryPoolE", t_create},
           {"_ZN3rml12pool_destroyEPNS_10MemoryPoolE", t_destroy},
           {"_ZN3rml13pool_identifyEPv", t_identify},
           {"_ZN3rml10pool_msizeEPNS_10MemoryPoolEPv", t_msize}};
#define NSYM (int)(sizeof(SYM) / sizeof(SYM[0]))
void *utils_open_library(const char *f, int flags) {
    VF_ASSERT(!strcmp(f, "libtbbmalloc.so.2") && !(flags & ~UMF_UTIL_OPEN_LIBRARY_GLOBAL), "the allocator's library is opened");
    if (nolib)
        return NULL;
    VF_ASSERT(!is_open, "the library is opened once");
    opens++;
    is_open = 1;
    return &lib;
}
int utils_close_library(void *h) {
    VF_ASSERT(h == &lib && is_open, "the library is closed once");
    closes++;
    is_open = 0;
    return 0;
}
void *utils_get_symbol_addr(void *h, const char *s, const char *l) {
    (void)l;
    VF_ASSERT(h == &lib && is_open, "symbols come from the open library");
    for (int i = 0; i < NSYM; i++)
        if (!strcmp(SYM[i].name, s))
            return i == missing ? NULL : SYM[i].fn;
    return NULL;
}
static umf_memory_pool_ops_t *o;
static umf_memory_pool_t up;
static umf_scalable_pool_params_handle_t par;
static void *last;
static void got(void *p, size_t n, int f, int pf) {
    umf_result_t e = o->get_last_allocation_error(up.pool_priv);
    VF_ASSERT(calls == 1, "the allocator is asked once");
    VF_ASSERT((p != NULL) == (failed == f), "an allocation fails exactly if the allocator does");
    if (p) {
        VF_ASSERT(p == B[nb - 1].m && B[nb - 1].live && B[nb - 1].pool == cur && B[nb - 1].n == n, "the allocator's block is handed out");
        VF_ASSERT(e == UMF_RESULT_SUCCESS, "an allocation that succeeds has no error");
        last = p;
        VF_REACH("alloc");
    } else {
        VF_ASSERT(e == (pfail != pf ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_ERROR_UNKNOWN), "the error says whether the provider failed");
        VF_REACH("alloc failed");
    }
}
void VF_ENTRY(void) {
    static const char script[] = VF_OPS;
    o = umfScalablePoolOps();
    gran = 2u << 20;
    int torn = 0;
#ifdef VF_CONFIG
    nolib = nd_choice();
    if (!nolib)
        missing = (int)nd_pick(NSYM + 1) - 1;
#endif
#ifdef VF_OOM
    vf_ba_fail_budget = VF_OOM;
#endif
#ifdef VF_PARAMS
    VF_ASSERT(umfScalablePoolParamsCreate(NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfScalablePoolParamsDestroy(NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                  umfScalablePoolParamsSetGranularity(NULL, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfScalablePoolParamsSetKeepAllMemory(NULL, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
              "no parameters, no success");
    umf_result_t pr = umfScalablePoolParamsCreate(&par);
    VF_ASSERT((pr == UMF_RESULT_SUCCESS) == !vf_ba_failed, "parameters are made");
    if (pr != UMF_RESULT_SUCCESS)
        return;
    if (nd_choice()) {
        size_t g = nd_u64();
        umf_result_t sr = umfScalablePoolParamsSetGranularity(par, g);
        VF_ASSERT((sr == UMF_RESULT_SUCCESS) == (g != 0), "any granularity but none is taken");
        if (sr == UMF_RESULT_SUCCESS)
            gran = g;
    }
    if (nd_choice()) {
        keep = nd_choice();
        VF_ASSERT(umfScalablePoolParamsSetKeepAllMemory(par, keep) == UMF_RESULT_SUCCESS, "parameters are set");
    }
#endif
    budget = VF_FAIL;
    for (unsigned s = 0; s < sizeof(script) - 1; s++) {
        int f = failed, pf = pfail;
        calls = 0;
        switch (script[s]) {
        case 'C': {
            int bf = vf_ba_failed, had = ntp;
            long lv = vf_ba_live;
            void *q = NULL;
            umf_result_t r = o->initialize((umf_memory_provider_handle_t)&provobj, par, &q);
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f && vf_ba_failed == bf && !nolib && missing < 0), "a pool is made exactly if the allocator and its library allow");
            if (r != UMF_RESULT_SUCCESS) {
                VF_ASSERT(vf_ba_live == lv && ntp == had, "a failed creation keeps nothing");
                VF_ASSERT(r == (nolib || missing >= 0 ? (vf_ba_failed != bf ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE)
                                                      : vf_ba_failed != bf ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC), "the cause is reported");
                VF_ASSERT(is_open == 0 || (!nolib && missing < 0), "a library that cannot be used is closed");
                VF_REACH("refused");
                goto out;
            }
            memset(&up, 0, sizeof(up));
            up.pool_priv = q;
            up.flags = nd_choice() ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0;
            cur = &TP[ntp - 1];
            last = NULL;
            break;
        }
        case 'M': {
            size_t n = nd_u64();
            void *p = o->malloc(up.pool_priv, n);
            VF_ASSERT(a_n == n, "the allocator gets the request");
            got(p, n, f, pf);
            break;
        }
        case 'L': {
            size_t n = nd_u64();
            a_n = n, a_al = nd_u64();
            got(o->aligned_malloc(up.pool_priv, n, a_al), n, f, pf);
            break;
        }
        case 'R': {
            size_t n = nd_u64();
            a_n = n;
            a_p = nd_choice() ? last : NULL;
            if (a_p == last)
                last = NULL;
            void *was = a_p;
            void *p = o->realloc(up.pool_priv, a_p, n);
            got(p, n, f, pf);
            if (!p)
                last = was;
            break;
        }
        case 'K': {
#ifdef VF_SMALL
            size_t k = nd_pick(4), n = nd_pick(4);
#else
            static const size_t big[] = {2, 16, 1ull << 32, 3ull << 32, 0x100000001ull, 1ull << 63, SIZE_MAX, SIZE_MAX / 3};
            size_t k = nd_u64(), n = big[nd_pick(8)], x = k;
            if (nd_choice())
                k = n, n = x;
#endif
            size_t t;
            bool ov = __builtin_mul_overflow(k, n, &t);
#ifndef VF_SMALL
            VF_ASSUME(ov); /* what does not overflow is not touched here */
#endif
            a_n = 0;
            void *p = o->calloc(up.pool_priv, k, n);
            if (ov) {
                VF_ASSERT(p == NULL && calls == 0, "an array whose size overflows is refused");
                VF_ASSERT(o->get_last_allocation_error(up.pool_priv) == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "the error is reported");
                VF_REACH("overflow");
                break;
            }
            VF_ASSERT(a_n >= t, "an array fits");
            got(p, a_n, f, pf);
            if (p)
                for (size_t i = 0; i < 32; i++)
                    VF_ASSERT((i >= t) | (((unsigned char *)p)[i] == 0), "an array is zero");
            break;
        }
        case 'U':
            if (!last)
                break;
            a_p = last;
            VF_ASSERT(o->malloc_usable_size(up.pool_priv, last) == B[blk(last)].n && calls == 1, "the allocator says how big a block is");
            break;
        case 'F': {
            umf_result_t r = o->free(up.pool_priv, last);
            if (!last) {
                VF_ASSERT(r == UMF_RESULT_SUCCESS && calls == 0, "nothing is freed by freeing nothing");
                break;
            }
            VF_ASSERT(calls == 1, "a block is freed once");
            VF_ASSERT(r == (failed == f ? UMF_RESULT_SUCCESS : pfail != pf ? perr : UMF_RESULT_ERROR_UNKNOWN), "the cause of a failed free is reported");
            VF_REACH(r == UMF_RESULT_SUCCESS ? "freed" : "free failed");
            if (r == UMF_RESULT_SUCCESS)
                last = NULL;
            break;
        }
        case 'Q': {
            int v = -1;
            long lv = vf_ba_live;
            int bf = vf_ba_failed;
            umf_result_t r = o->ctl(&up, 0, "params.tracking_enabled", &v, CTL_QUERY_READ);
            VF_ASSERT(r == UMF_RESULT_SUCCESS || vf_ba_failed != bf, "a pool says whether it tracks");
            VF_ASSERT(r != UMF_RESULT_SUCCESS || v == !(up.flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING), "a pool says whether it tracks");
            VF_ASSERT(vf_ba_failed != bf || o->ctl(&up, 0, "params.tracking", &v, CTL_QUERY_READ) != UMF_RESULT_SUCCESS, "other questions are refused");
            VF_ASSERT(vf_ba_live == lv, "a query keeps no metadata memory");
            VF_REACH("query");
            break;
        }
        case 'D':
            o->finalize(up.pool_priv);
            VF_ASSERT(!cur->live, "a pool's allocator is destroyed with it");
            up.pool_priv = NULL;
            break;
        case 'T':
            fini_tbb_global_state();
            VF_ASSERT(!is_open, "the library is closed when all is torn down");
            torn++;
            break;
        }
    }
out:
    if (par)
        umfScalablePoolParamsDestroy(par);
    VF_ASSERT(up.pool_priv != NULL || vf_ba_live == 0, "no metadata is left");
    if (!torn || is_open)
        fini_tbb_global_state();
    VF_ASSERT(!is_open && opens == closes, "the library is closed when all is torn down");
    VF_REACH("end");
}
#else
/* --- the proxy pool --- */
static size_t known;
static void *knownp;
umf_result_t umfMemoryTrackerGetAllocInfo(const void *p, umf_alloc_info_t *i) {
    if (p != knownp || fails())
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    i->base = (void *)p;
    i->baseSize = known;
    i->pool = NULL;
    return UMF_RESULT_SUCCESS;
}
void VF_ENTRY(void) {
    umf_memory_pool_ops_t *o = umfProxyPoolOps();
    void *pool = NULL;
#ifdef VF_OOM
    vf_ba_fail_budget = VF_OOM;
#endif
    umf_result_t r = o->initialize((umf_memory_provider_handle_t)&provobj, NULL, &pool);
    VF_ASSERT((r == UMF_RESULT_SUCCESS) == !vf_ba_failed, "a pool is made");
    if (r != UMF_RESULT_SUCCESS) {
        VF_REACH("refused");
        VF_REACH("end");
        return;
    }
    budget = VF_FAIL;
    void *L[3] = {0};
    size_t N[3];
    int nl = 0;
    for (int s = 0; s < 3; s++) {
        int pf = pfail;
        switch (nd_pick(4)) {
        case 0:
        case 1: {
            want = nd_u64();
            wantal = 0;
            void *p;
            if (nd_choice()) {
                wantal = nd_u64();
                p = o->aligned_malloc(pool, want, wantal);
            } else
                p = o->malloc(pool, want);
            VF_ASSERT((p != NULL) == (pfail == pf), "an allocation fails exactly if the provider does");
            VF_ASSERT(o->get_last_allocation_error(pool) == (p ? UMF_RESULT_SUCCESS : perr), "the provider's error is reported");
            if (p) {
                VF_ASSERT(p == (void *)R[nr - 1].a, "the provider's memory is handed out");
                L[nl] = p, N[nl++] = want;
                VF_REACH("alloc");
            }
            break;
        }
        case 2:
            if (nl) {
                knownp = L[nl - 1], known = N[nl - 1];
                if (VF_FAIL)
                    budget = 0; /* the tracker knows every block of a tracked pool */
                r = o->free(pool, L[nl - 1]);
                VF_ASSERT(r == UMF_RESULT_SUCCESS && !R[nr - 1].live, "memory goes back");
                nl = 0;
                VF_REACH("freed");
            }
            break;
        case 3: {
            size_t a = nd_u64(), b = nd_u64();
            int had = nr;
            if (nd_choice())
                VF_ASSERT(o->calloc(pool, a, b) == NULL, "arrays are refused");
            else
                VF_ASSERT(o->realloc(pool, nl ? L[0] : NULL, a) == NULL, "resizing is refused");
            VF_ASSERT(nr == had && o->get_last_allocation_error(pool) == UMF_RESULT_ERROR_NOT_SUPPORTED, "what is not supported says so");
            break;
        }
        }
    }
    o->finalize(pool);
    VF_ASSERT(vf_ba_live == 0, "no metadata is left");
    VF_REACH("end");
}
#endif
