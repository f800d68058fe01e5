/* The tracker under concurrent use.  Addresses are concrete, sizes and queried
 * addresses symbolic; freed entries are reused as the real pools do. */
#include "ipc_cache.h"
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/memory_provider_ops.h>
umf_memory_tracker_handle_t TRACKER;
int libumfInit(void) { return 0; }
static umf_memory_pool_t POOL[3];
static umf_memory_provider_handle_t UP[3], TP[3];
static uintptr_t next_ptr[4]; /* by thread: where the upstream puts it */
static umf_result_t up_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void up_fini(void *priv) { (void)priv; }
static umf_result_t up_alloc(void *priv, size_t size, size_t al, void **ptr) {
    (void)priv, (void)size, (void)al;
    *ptr = (void *)next_ptr[symx_tid()];
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_free(void *priv, void *ptr, size_t size) {
    (void)priv, (void)ptr, (void)size;
    return UMF_RESULT_SUCCESS;
}
static void up_err(void *p, const char **m, int32_t *e) { (void)p, (void)m, (void)e; }
static umf_result_t up_page(void *p, size_t s, size_t *o) {
    (void)p, (void)s, (void)o;
    return UMF_RESULT_ERROR_UNKNOWN;
}
static umf_result_t up_page2(void *p, void *s, size_t *o) {
    (void)p, (void)s, (void)o;
    return UMF_RESULT_ERROR_UNKNOWN;
}
static umf_result_t up_split(void *p, void *a, size_t b, size_t c) {
    (void)p, (void)a, (void)b, (void)c;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_merge(void *p, void *a, void *b, size_t c) {
    (void)p, (void)a, (void)b, (void)c;
    return UMF_RESULT_SUCCESS;
}
static const char *up_name(void *p) {
    (void)p;
    return "up";
}
static void get(int l, uintptr_t at, size_t n) {
    void *p = NULL;
    next_ptr[symx_tid()] = at;
    VF_ASSERT(umfMemoryProviderAlloc(TP[l], n, 0, &p) == UMF_RESULT_SUCCESS &&
                  p == (void *)at,
              "an allocation succeeds");
}
static void put(int l, uintptr_t at, size_t n) {
    VF_ASSERT(umfMemoryProviderFree(TP[l], (void *)at, n) == UMF_RESULT_SUCCESS,
              "a free succeeds");
}
static void owner(uintptr_t q, uintptr_t base, size_t n, int l) {
    umf_alloc_info_t i = {0};
    VF_ASSERT(umfMemoryTrackerGetAllocInfo((void *)q, &i) == UMF_RESULT_SUCCESS,
              "an address in a block that stays live has an owner");
    VF_ASSERT(i.base == (void *)base && i.baseSize == n && i.pool == &POOL[l],
              "an address maps to the innermost live block that holds it");
}
static const uintptr_t A = 0x10000, N0 = 0x10000, N1 = 0x14000, N2 = 0x18000,
                       Z = 0x100000;
static size_t an, n0, n1, n2;
static void w1(void *a) {
    (void)a;
    get(1, N1, n1);
#if VF_MODE == 5
    VF_ASSERT(umfMemoryProviderAllocationSplit(TP[1], (void *)N1, n1, 0x10) ==
                  UMF_RESULT_SUCCESS, "a split succeeds");
    owner(N1 + 0x10, N1 + 0x10, n1 - 0x10, 1);
    VF_ASSERT(umfMemoryProviderAllocationMerge(TP[1], (void *)N1,
                                               (void *)(N1 + 0x10), n1) ==
                  UMF_RESULT_SUCCESS, "a merge succeeds");
#endif
    owner(N1, N1, n1, 1);
    put(1, N1, n1);
#if VF_MODE == 2
    get(0, Z, 0x100000);
    put(0, Z, 0x100000);
#endif
}
static void w2(void *a) {
    (void)a;
    get(2, N2, n2);
    owner(N2, N2, n2, 2);
    put(2, N2, n2);
}
static void rd(void *a) {
    (void)a;
    uint64_t d = nd_range(0, 0x3fff);
    VF_ASSUME(d < n0);
    owner(N0 + d, N0, n0, 1);
    /* behind the block that comes and goes: nothing but the outer block */
    owner(N2 + 8, A, an, 0);
}
/* any address of the outer block */
static void rdany(void *a) {
    (void)a;
    uintptr_t q = A + nd_range(0, 0xffff);
    umf_alloc_info_t i = {0};
    VF_ASSERT(umfMemoryTrackerGetAllocInfo((void *)q, &i) == UMF_RESULT_SUCCESS,
              "an address in a block that stays live has an owner");
    bool outer = i.base == (void *)A && i.baseSize == an && i.pool == &POOL[0];
    if (q < N0 + n0)
        VF_ASSERT(i.base == (void *)N0 && i.baseSize == n0 && i.pool == &POOL[1],
                  "an address maps to the innermost live block that holds it");
    else if (q >= N1 && q < N1 + n1)
        VF_ASSERT(outer || (i.base == (void *)N1 && i.baseSize == n1 &&
                            i.pool == &POOL[1]),
                  "an address maps to a block that holds it");
    else
        VF_ASSERT(outer, "an address maps to a block that holds it");
}
/* a whole block of the outermost level comes and goes */
static void wtop(void *a) {
    (void)a;
    get(0, Z, n1);
    owner(Z, Z, n1, 0);
    put(0, Z, n1);
}
void VF_ENTRY(void) {
    umf_memory_provider_ops_t ops;
    memset(&ops, 0, sizeof ops);
    ops.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    ops.initialize = up_init;
    ops.finalize = up_fini;
    ops.alloc = up_alloc;
    ops.free = up_free;
    ops.get_last_native_error = up_err;
    ops.get_recommended_page_size = up_page;
    ops.get_min_page_size = up_page2;
    ops.get_name = up_name;
    ops.ext.allocation_split = up_split;
    ops.ext.allocation_merge = up_merge;
    TRACKER = umfMemoryTrackerCreate();
    VF_MADE(umfIpcCacheGlobalInit() == UMF_RESULT_SUCCESS);
    for (int i = 0; i < 3; i++) {
        VF_MADE(umfMemoryProviderCreate(&ops, &POOL[i], &UP[i]) == UMF_RESULT_SUCCESS);
        VF_MADE(umfTrackingMemoryProviderCreate(UP[i], &POOL[i], &TP[i]) ==
                  UMF_RESULT_SUCCESS);
    }
    an = 0x10000, n0 = nd_range(1, 0x3000), n1 = nd_range(0x20, 0x1000),
    n2 = nd_range(1, 0x1000);
    get(0, A, an);
    get(1, N0, n0);
#if VF_MODE == 1 /* lookups while a nested block comes and goes */
    symx_spawn(w1, NULL);
    symx_spawn(rd, NULL);
#elif VF_MODE == 2 /* the same, the entry is reused for a bigger block */
    symx_spawn(w1, NULL);
    symx_spawn(rd, NULL);
#elif VF_MODE == 3 /* two pools inside one block */
    symx_spawn(w1, NULL);
    symx_spawn(w2, NULL);
#elif VF_MODE == 4
    symx_spawn(wtop, NULL);
    symx_spawn(w2, NULL);
#elif VF_MODE == 6 /* any address, while a nested block comes and goes */
    symx_spawn(w1, NULL);
    symx_spawn(rdany, NULL);
#else
    symx_spawn(w1, NULL);
    symx_spawn(w2, NULL);
#endif
    symx_join_all();
    owner(A + 0xffff, A, an, 0);
    owner(N0, N0, n0, 1);
    put(1, N0, n0);
    owner(N0, A, an, 0);
    put(0, A, an);
    VF_ASSERT(umfMemoryTrackerGetPool((void *)A) == NULL, "a freed block is gone");
    for (int i = 0; i < 3; i++) {
        umfMemoryProviderDestroy(TP[i]);
        umfMemoryProviderDestroy(UP[i]);
    }
    umfIpcCacheGlobalTearDown();
    umfMemoryTrackerDestroy(TRACKER);
    VF_ASSERT(vf_ba_live == 0, "no tracking entry stays behind");
    VF_REACH("end");
}
