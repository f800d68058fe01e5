/* VF_MODE 1: G01, umfInit/umfTearDown: histories VF_OPS of I init, T teardown,
 * U use (provider, pool, allocation, owner lookup, free), in any order that the
 * solver picks when VF_OPS has '?'. VF_MODE 2: K02, queries by handle. */
#define _GNU_SOURCE 1
#define OSMAX 40
#include "os_model.h"
#include "utils_common.h"
#include "vf_models.h"
#include <umf.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include <umf/memory_pool_ops.h>
#include <umf/pools/pool_proxy.h>
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#ifndef VF_OPS
#define VF_OPS "I???T"
#endif
#ifndef VF_FAIL
#define VF_FAIL 0
#endif
#ifndef VF_CYCLES
#define VF_CYCLES 0
#endif
umf_result_t umfCtlGet(const char *name, void *ctx, void *arg);
umf_result_t umfCtlSet(const char *name, void *ctx, void *arg);
umf_result_t umfCtlExec(const char *name, void *ctx, void *arg);
void initialize_global_ctl(void);
void os_unmapped(uintptr_t a, size_t l) { (void)a, (void)l; }
#if VF_MODE == 1
#include "provider_tracking.h"
static int fins, tops;
#define FIN(f) void f(void) { fins++; }
FIN(umfMemspaceHostAllDestroy) FIN(umfMemspaceHighestCapacityDestroy) FIN(umfMemspaceHighestBandwidthDestroy) FIN(umfMemspaceLowestLatencyDestroy)
FIN(fini_ze_global_state) FIN(fini_cu_global_state) FIN(fini_tbb_global_state)
void umfDestroyTopology(void) {
    VF_ASSERT((fins & 3) == 0 || fins >= 4, "the topology goes after the memspaces");
    fins++;
    tops++;
}
#endif
static umf_result_t p_init(void *par, void **p) {
    *p = par;
    return UMF_RESULT_SUCCESS;
}
static void p_fini(void *p) { (void)p; }
static umf_result_t p_alloc(void *p, size_t n, size_t al, void **r) {
    (void)p, (void)n, (void)al;
    *r = (void *)(nd_range(1ull << 33, 1ull << 34) << 12);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_free(void *p, void *q, size_t n) {
    (void)p, (void)q, (void)n;
    return UMF_RESULT_SUCCESS;
}
static void p_err(void *p, const char **m, int32_t *e) { (void)p, *m = "", *e = 0; }
static umf_result_t p_page(void *p, size_t n, size_t *s) {
    (void)p, (void)n;
    *s = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_minpage(void *p, void *q, size_t *s) {
    (void)p, (void)q;
    *s = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *p_name(void *p) {
    (void)p;
    return "x";
}
static int ctl_n, ctl_t, ctl_ret;
static void *ctl_h, *ctl_arg;
static const char *ctl_name;
static umf_result_t x_ctl(void *h, int op, const char *name, void *arg, umf_ctl_query_type_t t) {
    (void)op;
    ctl_n++;
    ctl_h = h;
    ctl_arg = arg;
    ctl_t = t;
    ctl_name = name;
    return ctl_ret;
}
static umf_memory_provider_ops_t P = {.version = UMF_PROVIDER_OPS_VERSION_CURRENT, .initialize = p_init, .finalize = p_fini, .alloc = p_alloc, .free = p_free,
                                      .get_last_native_error = p_err, .get_recommended_page_size = p_page, .get_min_page_size = p_minpage, .get_name = p_name};
static int mark;
extern int vf_log_inits;
void libumfInit(void) {}
#if VF_MODE == 1
static void use(void) {
    umf_memory_provider_handle_t pr = NULL;
    umf_memory_pool_handle_t po = NULL, o = NULL;
    int ref = os_refused + vf_locks_failed;
    umf_result_t r = umfMemoryProviderCreate(&P, &mark, &pr);
    if (r == UMF_RESULT_SUCCESS) {
        r = umfPoolCreate(umfProxyPoolOps(), pr, NULL, 0, &po);
        if (r == UMF_RESULT_SUCCESS) {
            size_t n = nd_range(1, 1ull << 30);
            void *q = umfPoolMalloc(po, n);
            if (q) {
                uint64_t d = nd_u64();
                VF_ASSUME(d < n);
                o = umfPoolByPtr((char *)q + d);
                VF_ASSERT(o == po, "an allocation is found to be its pool's");
                r = umfPoolFree(po, q);
                VF_ASSERT((r == UMF_RESULT_SUCCESS) | (ref != os_refused + vf_locks_failed), "an allocation can be freed");
                VF_REACH("used");
            } else
                VF_ASSERT(ref != os_refused + vf_locks_failed, "an initialized library allocates");
            umfPoolDestroy(po);
        } else
            VF_ASSERT(ref != os_refused + vf_locks_failed, "an initialized library creates pools");
        umfMemoryProviderDestroy(pr);
    } else
        VF_ASSERT(ref != os_refused + vf_locks_failed, "an initialized library creates providers");
}
static void unused(void) { /* without initialization: refused, not crashed */
    umf_memory_provider_handle_t pr = NULL;
    umf_memory_pool_handle_t po = NULL;
    int dummy = 0;
    VF_ASSERT(umfPoolByPtr(&dummy) == NULL, "nothing is known without initialization");
    if (umfMemoryProviderCreate(&P, &mark, &pr) == UMF_RESULT_SUCCESS) {
        umf_result_t r = umfPoolCreate(umfProxyPoolOps(), pr, NULL, 0, &po);
        VF_ASSERT(r != UMF_RESULT_SUCCESS && po == NULL, "no tracked pool exists without initialization");
        umfMemoryProviderDestroy(pr);
        VF_REACH("unused");
    }
}
void VF_ENTRY(void) {
    static const char script[] = VF_OPS;
    setenv("LD_PRELOAD", "", 1);
    setenv("UMF_PROXY", "", 1);
    int count = 0, done = 0;
    for (int i = 0; i < VF_CYCLES; i++) {
        VF_ASSERT(umfInit() == 0, "the library is initialized again");
        umfTearDown();
        done++;
    }
    VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
    os_budget = VF_FAIL;
#ifdef VF_LOCKFAIL
    vf_lock_init_may_fail = true;
#endif
    for (unsigned s = 0; s < sizeof(script) - 1; s++) {
        char c = script[s] == '?' ? "ITU"[nd_pick(3)] : script[s];
        if (c == 'T' && !count)
            c = 'U';
        int f = fins, ref = os_refused + vf_locks_failed;
        switch (c) {
        case 'I': {
            int li = vf_log_inits, r = umfInit();
            VF_ASSERT(count || vf_log_inits > li, "the first user sets the log up");
            VF_ASSERT((r == 0) | (ref != os_refused + vf_locks_failed), "initialization fails for a reason only");
            if (r == 0)
                count++;
            else {
                VF_ASSERT(count == 0, "a library in use need not be initialized again");
                unused();
                VF_REACH("failed");
            }
            break;
        }
        case 'T':
            umfTearDown();
            count--;
            done += count == 0;
            VF_ASSERT(fins == f + (count ? 0 : 8), "the last user, and no other, tears everything down");
            if (!count) {
                VF_ASSERT(os_nlive() == 0, "everything goes back to the OS");
                VF_ASSERT(umfPoolByPtr(&mark) == NULL && os_nlive() == 0, "nothing is known after the tear-down");
            }
            break;
        default:
            if (count)
                use();
            break;
        }
    }
    VF_ASSERT(fins == 8 * done && tops == done, "global state is torn down once");
    while (count-- > 0)
        umfTearDown();
    VF_ASSERT(os_nlive() == 0 || done == 0, "everything goes back to the OS");
    VF_REACH("end");
}
#else
#include "provider_tracking.h"
umf_memory_tracker_handle_t TRACKER;
static umf_result_t pl_init(umf_memory_provider_handle_t p, void *par, void **pool) {
    (void)p;
    *pool = par;
    return UMF_RESULT_SUCCESS;
}
static void pl_fini(void *p) { (void)p; }
static void *pl_malloc(void *p, size_t n) {
    (void)p, (void)n;
    return NULL;
}
static void *pl_calloc(void *p, size_t m, size_t n) {
    (void)p, (void)m, (void)n;
    return NULL;
}
static void *pl_realloc(void *p, void *q, size_t n) {
    (void)p, (void)q, (void)n;
    return NULL;
}
static void *pl_al(void *p, size_t n, size_t a) {
    (void)p, (void)a, (void)n;
    return NULL;
}
static size_t pl_us(void *p, void *q) {
    (void)p, (void)q;
    return 0;
}
static umf_result_t pl_free(void *p, void *q) {
    (void)p, (void)q;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t pl_err(void *p) {
    (void)p;
    return UMF_RESULT_SUCCESS;
}
static umf_memory_pool_ops_t PL = {.version = UMF_POOL_OPS_VERSION_CURRENT, .initialize = pl_init, .finalize = pl_fini, .malloc = pl_malloc, .calloc = pl_calloc,
                                   .realloc = pl_realloc, .aligned_malloc = pl_al, .malloc_usable_size = pl_us, .free = pl_free, .get_last_allocation_error = pl_err};
#include "libumf.h"
#include "ctl/ctl.h"
void VF_ENTRY(void) {
    static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool), CTL_NODE_END};
    CTL_REGISTER_MODULE(NULL, umf);
    long base = vf_ba_live;
    bool has = nd_choice(), pool = nd_choice();
    P.ctl = has ? x_ctl : NULL;
    PL.ctl = has ? x_ctl : NULL;
    umf_memory_provider_handle_t pr = NULL;
    umf_memory_pool_handle_t po = NULL;
    VF_MADE(umfMemoryProviderCreate(&P, &mark, &pr) == UMF_RESULT_SUCCESS);
    VF_MADE(umfPoolCreate(&PL, pr, &mark, UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &po) == UMF_RESULT_SUCCESS);
    ctl_ret = (int)nd_u64();
    ctl_n = 0;
    char name[64];
    strcpy(name, pool ? "umf.pool.by_handle." : "umf.provider.by_handle.");
    size_t l = strlen(name);
    for (int i = 0; i < 3; i++)
        name[l + i] = "ab.z"[nd_pick(4)];
    name[l + 3] = 0;
    int arg = 5;
    void *ctx = pool ? (void *)po : (void *)pr;
    if (nd_choice()) { /* something is missing */
        unsigned w = nd_pick(3);
        umf_result_t (*f)(const char *, void *, void *) = nd_pick(2) ? umfCtlGet : umfCtlSet;
        VF_ASSERT(f(w == 0 ? NULL : name, w == 1 ? NULL : ctx, w == 2 ? NULL : &arg) != UMF_RESULT_SUCCESS, "missing arguments are refused");
        VF_ASSERT(ctl_n == 0, "missing arguments are refused");
    } else {
        unsigned t = nd_pick(3);
        umf_result_t r = (t == 0 ? umfCtlGet : t == 1 ? umfCtlSet : umfCtlExec)(name, ctx, &arg);
        static const int types[] = {CTL_QUERY_READ, CTL_QUERY_WRITE, CTL_QUERY_RUNNABLE};
        if (!has) {
            VF_ASSERT(r != UMF_RESULT_SUCCESS, "a query nobody answers fails");
            VF_REACH("no ctl");
        } else {
            VF_ASSERT(ctl_n <= 1, "a query is answered once");
            if (ctl_n) {
                VF_ASSERT(ctl_arg == &arg && ctl_t == types[t] && ctl_h == (pool ? (void *)po : (void *)&mark), "the query is passed on as it is");
                VF_ASSERT((r == UMF_RESULT_SUCCESS) == (ctl_ret == 0), "a query succeeds when its handler does");
                VF_REACH("asked");
            } else
                VF_ASSERT(r != UMF_RESULT_SUCCESS, "a query nobody answers fails");
            if (name[l] != '.' && name[l + 1] != '.')
                VF_ASSERT(ctl_n == 1, "a query reaches the object it names");
        }
    }
    umfPoolDestroy(po);
    umfMemoryProviderDestroy(pr);
    VF_ASSERT(vf_ba_live == base, "nothing leaks");
    VF_REACH("end");
}
#endif
