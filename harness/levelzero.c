/* L01: the Level Zero provider over a model of the driver. VF_OPS: A alloc, F
 * free, P page size, E last error, X export and open. */
#include "base_alloc_global.h"
#include "utils_common.h"
#include "utils_load_library.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf.h>
#include <umf/memory_provider_ops.h>
#include <umf/providers/provider_level_zero.h>
#include "ze_api.h"
#ifndef VF_OPS
#define VF_OPS "AFA"
#endif
#ifndef VF_FAIL
#define VF_FAIL 0
#endif
#ifndef VF_RES
#define VF_RES 2
#endif
void libumfInit(void) {}
void fini_ze_global_state(void);
/* --- the driver --- */
#define NB 6
static struct blk {
    uintptr_t a;
    size_t n;
    int live, resident, expo, opens;
} B[NB];
static int nb, budget, failed, calls, dummy, opened_lib, hctx, hdev, hres[VF_RES + 1];
static size_t maxmem, page;
static unsigned ordinal, type, policy, nres;
static ze_result_t last;
static int last_set;
static ze_result_t fails(void) {
    calls++;
    if (budget > 0 && nd_choice()) {
        budget--;
        failed++;
        ze_result_t r = (ze_result_t)(nd_choice() ? ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY : ZE_RESULT_ERROR_DEVICE_LOST);
        if (r == ZE_RESULT_ERROR_DEVICE_LOST)
            last = r, last_set = 1;
        return r;
    }
    return ZE_RESULT_SUCCESS;
}
static size_t want_n, want_al;
static int allocs;
static ze_result_t grant(ze_context_handle_t c, size_t n, size_t al, void *r) {
    VF_ASSERT(c == (void *)&hctx, "the driver is asked in the provider's context");
    VF_ASSERT(n == want_n && al == want_al, "the driver is asked for the size and alignment of the request");
    allocs++;
    ze_result_t z = fails();
    if (z != ZE_RESULT_SUCCESS)
        return z;
    if (nb == NB)
        VF_LIMIT("blocks");
    uintptr_t a = nd_range(1ull << 33, 1ull << 34) << 12;
    VF_ASSUME(n < 1ull << 46);
    for (int i = 0; i < nb; i++)
        VF_ASSUME(!B[i].live | ((a != B[i].a) & ((a + n <= B[i].a) | (B[i].a + B[i].n <= a))));
    B[nb++] = (struct blk){a, n, 1, 0, 0, 0};
    *(void **)r = (void *)a;
    return z;
}
static struct blk *of(const void *p) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].a == (uintptr_t)p)
            return &B[i];
    return NULL;
}
static void hostdesc(const ze_host_mem_alloc_desc_t *h) { VF_ASSERT(h->stype == ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC && !h->pNext && !h->flags, "a plain request for host memory"); }
static void devdesc(const ze_device_mem_alloc_desc_t *d, size_t n, ze_device_handle_t dev) {
    VF_ASSERT(dev == (void *)&hdev && d->ordinal == ordinal, "memory comes from the provider's device and ordinal");
    VF_ASSERT(d->stype == ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC && !d->flags, "a plain request for device memory");
    const ze_relaxed_allocation_limits_exp_desc_t *x = d->pNext;
    VF_ASSERT((x != NULL) == (n > maxmem), "the limit is lifted exactly for blocks beyond it");
    if (x)
        VF_ASSERT(x->stype == ZE_STRUCTURE_TYPE_RELAXED_ALLOCATION_LIMITS_EXP_DESC && !x->pNext && x->flags == ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE, "the limit of the size is lifted");
}
static ze_result_t d_host(ze_context_handle_t c, const ze_host_mem_alloc_desc_t *h, size_t n, size_t al, void *r) {
    VF_ASSERT(type == UMF_MEMORY_TYPE_HOST, "memory is of the provider's type");
    hostdesc(h);
    return grant(c, n, al, r);
}
static ze_result_t d_dev(ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, size_t n, size_t al, ze_device_handle_t dev, void *r) {
    VF_ASSERT(type == UMF_MEMORY_TYPE_DEVICE, "memory is of the provider's type");
    devdesc(d, n, dev);
    return grant(c, n, al, r);
}
static ze_result_t d_shared(ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, const ze_host_mem_alloc_desc_t *h, size_t n, size_t al, ze_device_handle_t dev, void *r) {
    VF_ASSERT(type == UMF_MEMORY_TYPE_SHARED, "memory is of the provider's type");
    devdesc(d, n, dev);
    hostdesc(h);
    return grant(c, n, al, r);
}
static ze_result_t drop(ze_context_handle_t c, void *p) {
    VF_ASSERT(c == (void *)&hctx, "the driver is asked in the provider's context");
    struct blk *b = of(p);
    VF_ASSERT(b != NULL, "only live memory of the driver is freed");
    b->live = 0;
    return ZE_RESULT_SUCCESS;
}
static int plain, ext;
static ze_result_t d_free(ze_context_handle_t c, void *p) {
    plain++;
    return drop(c, p);
}
static ze_result_t d_freeext(ze_context_handle_t c, ze_memory_free_ext_desc_t *d, void *p) {
    ext++;
    VF_ASSERT(policy != 0 && d->stype == ZE_STRUCTURE_TYPE_MEMORY_FREE_EXT_DESC && !d->pNext, "memory is freed as the policy says");
    VF_ASSERT(d->freePolicy == (policy == UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE : ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE),
              "memory is freed as the policy says");
    return drop(c, p);
}
static ze_ipc_mem_handle_t H;
static int fd_of(ze_ipc_mem_handle_t h) {
    int f;
    memcpy(&f, &h, sizeof(f));
    return f;
}
static struct blk *shared;
static int pid = 10, dups, dfd = 77, opens, puts_;
static ze_result_t d_get(ze_context_handle_t c, const void *p, ze_ipc_mem_handle_t *h) {
    VF_ASSERT(c == (void *)&hctx, "the driver is asked in the provider's context");
    struct blk *b = of(p);
    VF_ASSERT(b != NULL, "live memory is exported");
    ze_result_t z = fails();
    if (z == ZE_RESULT_SUCCESS) {
        shared = b;
        b->expo++;
        memcpy(h, &H, sizeof(H));
    }
    return z;
}
static ze_result_t d_put(ze_context_handle_t c, ze_ipc_mem_handle_t h) {
    VF_ASSERT(c == (void *)&hctx && !memcmp(&h, &H, sizeof(h)), "the exported handle is given back");
    puts_++;
    return fails();
}
static uintptr_t opened;
static ze_result_t d_open(ze_context_handle_t c, ze_device_handle_t d, ze_ipc_mem_handle_t h, ze_ipc_memory_flags_t f, void **r) {
    VF_ASSERT(c == (void *)&hctx && d == (ze_device_handle_t)(type == UMF_MEMORY_TYPE_HOST ? NULL : &hdev) && !f, "the driver is asked in the provider's context");
    VF_ASSERT(fd_of(h) == (pid == 10 ? fd_of(H) : dfd) && (pid == 10 || dups == 1), "a handle of another process is opened by a duplicate of its file");
    VF_ASSERT(!memcmp((char *)&h + sizeof(int), (char *)&H + sizeof(int), sizeof(h) - sizeof(int)), "the handle is opened as it was exported");
    ze_result_t z = fails();
    if (z == ZE_RESULT_SUCCESS) {
        opened = nd_range(1ull << 33, 1ull << 34) << 12;
        *r = (void *)opened;
        opens++;
    }
    return z;
}
static ze_result_t d_close(ze_context_handle_t c, void *p) {
    VF_ASSERT(c == (void *)&hctx && (uintptr_t)p == opened && opens > 0, "what was opened is closed");
    opens--;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t d_resident(ze_context_handle_t c, ze_device_handle_t d, void *p, size_t n) {
    VF_ASSERT(c == (void *)&hctx, "the driver is asked in the provider's context");
    struct blk *b = of(p);
    VF_ASSERT(b != NULL && b->n == n, "all of a live block is made resident");
    VF_ASSERT(b->resident < (int)nres && d == (ze_device_handle_t)&hres[b->resident], "a block is made resident on the devices asked for");
    ze_result_t z = fails();
    if (z == ZE_RESULT_SUCCESS)
        b->resident++;
    return z;
}
static ze_result_t d_props(ze_device_handle_t d, ze_device_properties_t *p) {
    VF_ASSERT(d == (void *)&hdev && p->stype == ZE_STRUCTURE_TYPE_DEVICE_PROPERTIES && !p->pNext, "the device is asked for its properties");
    p->maxMemAllocSize = maxmem;
    return fails();
}
static ze_result_t d_allocprops(ze_context_handle_t c, const void *p, ze_memory_allocation_properties_t *q, ze_device_handle_t *d) {
    VF_ASSERT(c == (void *)&hctx && q->stype == ZE_STRUCTURE_TYPE_MEMORY_ALLOCATION_PROPERTIES && !d, "the driver is asked in the provider's context");
    VF_ASSERT(of(p) != NULL, "only live memory has properties");
    ze_result_t z = fails();
    if (z == ZE_RESULT_SUCCESS)
        q->pageSize = page;
    return z;
}
/* --- libraries and processes --- */
static int missing = -1, nolib;
static const struct {
    const char *name;
    void *fn;
} SYM[] = {{"zeMemAllocHost", d_host}, {"zeMemAllocDevice", d_dev}, {"zeMemAllocShared", d_shared}, {"zeMemFree", d_free}, {"zeMemGetIpcHandle", d_get}, {"zeMemPutIpcHandle", d_put}, {"zeMemOpenIpcHandle", d_open},
           {"zeMemCloseIpcHandle", d_close}, {"zeContextMakeMemoryResident", d_resident}, {"zeDeviceGetProperties", d_props}, {"zeMemFreeExt", d_freeext}, {"zeMemGetAllocProperties", d_allocprops}};
#define NSYM (int)(sizeof(SYM) / sizeof(SYM[0]))
void *utils_open_library(const char *f, int flags) {
    (void)f;
    VF_ASSERT(flags == UMF_UTIL_OPEN_LIBRARY_NO_LOAD, "the driver's library is not loaded by the provider");
    if (nolib)
        return NULL;
    opened_lib++;
    return &dummy;
}
int utils_close_library(void *h) {
    VF_ASSERT(h == &dummy, "the library is closed");
    opened_lib--;
    return 0;
}
void *utils_get_symbol_addr(void *h, const char *s, const char *l) {
    (void)l;
    VF_ASSERT(h == &dummy, "symbols come from the library");
    for (int i = 0; i < NSYM; i++)
        if (!strcmp(SYM[i].name, s))
            return i == missing ? NULL : SYM[i].fn;
    return NULL;
}
int utils_getpid(void) { return pid; }
umf_result_t utils_duplicate_fd(int p, int f, int *r) {
    VF_ASSERT(p == 10 && f == fd_of(H) && pid != 10, "the file of the exporting process is duplicated");
    if (budget > 0 && nd_choice()) {
        budget--;
        failed++;
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    dups++;
    *r = dfd;
    return UMF_RESULT_SUCCESS;
}
int utils_close_fd(int f) {
    VF_ASSERT(f == dfd && dups == 1, "the duplicate is closed once");
    dups--;
    return 0;
}
/* --- the provider --- */
#define OK(c) VF_ASSERT(c, "the parameters are set")
static struct {
    void *p;
    size_t n;
} L[NB];
static int nl;
static umf_result_t mapped(ze_result_t z) { return z == ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC; }
static int livecount(void) {
    int n = 0;
    for (int i = 0; i < nb; i++)
        n += B[i].live;
    return n;
}
void VF_ENTRY(void) {
    static const char script[] = VF_OPS;
    umf_level_zero_memory_provider_params_handle_t par = NULL;
    umf_memory_provider_ops_t *o = umfLevelZeroMemoryProviderOps();
    void *pr = NULL, *q = NULL;
    (void)mapped;
    ordinal = (unsigned)nd_range(0, 0xffffffffull);
    maxmem = nd_range(1, UINT64_MAX);
    page = nd_u64();
    for (unsigned i = 0; i < sizeof(H); i++)
        ((char *)&H)[i] = (char)(i + 1);
    type = nd_pick(4); /* unknown, host, device, shared */
#ifdef VF_CONFIG
    bool ctx = nd_choice(), dev = nd_choice();
    policy = nd_pick(3);
    nolib = nd_choice();
    if (!nolib)
        missing = (int)nd_pick((unsigned)NSYM + 1) - 1;
#else
    VF_ASSUME(type != UMF_MEMORY_TYPE_UNKNOWN);
    bool ctx = true, dev = type != UMF_MEMORY_TYPE_HOST;
    policy = nd_pick(2) * UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFER_FREE;
    missing = nd_choice() ? 5 : -1; /* zeMemPutIpcHandle */
#endif
    nres = nd_pick(VF_RES + 1);
    ze_device_handle_t rd[VF_RES + 1];
    for (unsigned i = 0; i < nres; i++)
        rd[i] = (ze_device_handle_t)&hres[i];
    budget = VF_FAIL;
#ifdef VF_OOM
    vf_ba_fail_budget = VF_OOM;
#endif
    umf_result_t r = umfLevelZeroMemoryProviderParamsCreate(&par);
    VF_ASSERT(r == UMF_RESULT_SUCCESS || vf_ba_failed, "parameters are made");
#define BAD(e) VF_ASSERT((e) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "bad parameters are refused")
    BAD(umfLevelZeroMemoryProviderParamsCreate(NULL));
    BAD(umfLevelZeroMemoryProviderParamsSetContext(NULL, (ze_context_handle_t)&hctx));
    BAD(umfLevelZeroMemoryProviderParamsSetDevice(NULL, (ze_device_handle_t)&hdev));
    BAD(umfLevelZeroMemoryProviderParamsSetMemoryType(NULL, UMF_MEMORY_TYPE_HOST));
    BAD(umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(NULL, 0));
    BAD(umfLevelZeroMemoryProviderParamsSetResidentDevices(NULL, NULL, 0));
    BAD(umfLevelZeroMemoryProviderParamsSetFreePolicy(NULL, UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFAULT));
    BAD(o->initialize(NULL, &pr));
    if (r != UMF_RESULT_SUCCESS)
        return;
    BAD(umfLevelZeroMemoryProviderParamsSetContext(par, NULL));
    BAD(umfLevelZeroMemoryProviderParamsSetResidentDevices(par, NULL, 1));
    if (ctx)
        OK(umfLevelZeroMemoryProviderParamsSetContext(par, (ze_context_handle_t)&hctx) == UMF_RESULT_SUCCESS);
    if (dev)
        OK(umfLevelZeroMemoryProviderParamsSetDevice(par, (ze_device_handle_t)&hdev) == UMF_RESULT_SUCCESS);
    OK(umfLevelZeroMemoryProviderParamsSetMemoryType(par, (umf_usm_memory_type_t)type) == UMF_RESULT_SUCCESS);
    OK(umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(par, ordinal) == UMF_RESULT_SUCCESS);
    OK(umfLevelZeroMemoryProviderParamsSetResidentDevices(par, nres ? rd : NULL, nres) == UMF_RESULT_SUCCESS);
    OK(umfLevelZeroMemoryProviderParamsSetFreePolicy(par, (umf_level_zero_memory_provider_free_policy_t)policy) == UMF_RESULT_SUCCESS);
    want_n = 1, want_al = 0;
    r = o->initialize(par, &pr);
    umfLevelZeroMemoryProviderParamsDestroy(par);
    for (unsigned i = 0; i < nres; i++)
        rd[i] = NULL; /* the user's array is not used any more */
    bool good = ctx && type != UMF_MEMORY_TYPE_UNKNOWN && dev == (type != UMF_MEMORY_TYPE_HOST) && !nolib && (missing < 0 || missing == 5 || (missing == 10 && policy == 0));
    VF_ASSERT(good || r != UMF_RESULT_SUCCESS, "a provider that cannot work is not created");
    VF_ASSERT(!good || r == UMF_RESULT_SUCCESS || failed || vf_ba_failed, "a proper provider is created");
    VF_ASSERT(!failed || r != UMF_RESULT_SUCCESS, "a failure of the driver is reported");
    VF_ASSERT(livecount() == 0, "creation keeps no memory of the driver");
    if (r != UMF_RESULT_SUCCESS) {
        fini_ze_global_state();
        VF_ASSERT(vf_ba_live == 0 && opened_lib == 0, "a failed creation keeps nothing");
        VF_REACH("refused");
        return;
    }
    VF_ASSERT(!strcmp(o->get_name(pr), "LEVEL_ZERO"), "a provider has its name");
#define UNS(e) VF_ASSERT((e) == UMF_RESULT_ERROR_NOT_SUPPORTED, "unsupported requests are refused as such")
    UNS(o->ext.purge_lazy(pr, &par, 1));
    UNS(o->ext.purge_force(pr, &par, 1));
    UNS(o->ext.allocation_split(pr, &par, 8192, 4096));
    UNS(o->ext.allocation_merge(pr, &par, &pr, 8192));
    for (unsigned s = 0; s < sizeof(script) - 1; s++) {
        int f = failed;
        switch (script[s]) {
        case 'A': {
            size_t n = nd_u64(), al = nd_u64();
            want_n = n, want_al = al;
            allocs = 0;
            q = (void *)1;
            int had = livecount();
            r = o->alloc(pr, n, al, &q);
            VF_ASSERT(allocs == 1, "the driver is asked once");
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f), "an allocation fails exactly if the driver does");
            if (r == UMF_RESULT_SUCCESS) {
                struct blk *b = of(q);
                VF_ASSERT(b == &B[nb - 1], "the driver's block is handed out");
                VF_ASSERT(b->resident == (int)nres, "a block is resident on every device asked for");
                L[nl].p = q;
                L[nl++].n = n;
                VF_REACH("alloc");
            } else {
                VF_ASSERT(livecount() == had, "memory that is not handed out is not kept");
                VF_ASSERT(r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "the driver's error is reported");
                VF_REACH("alloc failed");
            }
            break;
        }
        case 'F':
            VF_ASSERT(o->free(pr, NULL, 0) == UMF_RESULT_SUCCESS, "nothing can be freed");
            if (nl) {
                int i = (int)nd_pick((unsigned)nl), p = plain, e = ext;
                r = o->free(pr, L[i].p, L[i].n);
                VF_ASSERT(r == UMF_RESULT_SUCCESS && !of(L[i].p), "a block is freed");
                VF_ASSERT(plain - p == (policy == 0) && ext - e == (policy != 0), "memory is freed as the policy says");
                L[i] = L[--nl];
            }
            break;
        case 'P': {
            size_t ps = page + 1;
            bool of1 = nl && nd_choice();
            r = of1 ? o->get_min_page_size(pr, L[0].p, &ps) : nd_choice() ? o->get_min_page_size(pr, NULL, &ps) : o->get_recommended_page_size(pr, nd_u64(), &ps);
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f), "the page size is known unless the driver fails");
            if (r == UMF_RESULT_SUCCESS)
                VF_ASSERT(ps == page, "the page size is the driver's");
            break;
        }
        case 'E': {
            const char *m = NULL;
            int32_t e = 1;
            o->get_last_native_error(pr, &m, &e);
            VF_ASSERT(m != NULL, "the last error has a message");
            VF_ASSERT(e == (int32_t)last, "the driver's last error is reported");
            break;
        }
        case 'X':
            if (nl) {
                size_t hs = 0;
                VF_ASSERT(o->ipc.get_ipc_handle_size(pr, &hs) == UMF_RESULT_SUCCESS && hs < 4096, "the size of a handle");
                char *h = malloc(hs);
                VF_ASSUME(h != NULL);
                unsigned i = nd_pick((unsigned)nl);
                pid = 10;
                r = o->ipc.get_ipc_handle(pr, L[i].p, L[i].n, h);
                VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f), "memory is exported unless the driver fails");
                if (r == UMF_RESULT_SUCCESS) {
                    VF_ASSERT(shared == of(L[i].p), "the block asked for is exported");
                    pid = nd_choice() ? 10 : 20;
                    f = failed;
                    dfd = (int)nd_range(0, 1 << 20);
                    void *v = NULL;
                    r = o->ipc.open_ipc_handle(pr, h, &v);
                    VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f), "a handle is opened unless the driver fails");
                    VF_ASSERT(dups == 0, "no duplicate stays open");
                    if (r == UMF_RESULT_SUCCESS) {
                        VF_ASSERT((uintptr_t)v == opened, "the mapping is the driver's");
                        VF_ASSERT(o->ipc.close_ipc_handle(pr, v, L[i].n) == UMF_RESULT_SUCCESS && opens == 0, "a mapping is closed");
                        VF_REACH("opened");
                    }
                    pid = 10;
                    f = failed;
                    r = o->ipc.put_ipc_handle(pr, h);
                    VF_ASSERT((r == UMF_RESULT_SUCCESS) == (failed == f), "a handle is given back unless the driver fails");
                    VF_ASSERT(puts_ == (missing != 5), "a handle is given back once");
                    puts_ = 0;
                }
                free(h);
            }
            break;
        }
    }
    VF_ASSERT(livecount() == nl, "every block is alive until it is freed");
    while (nl > 0) {
        nl--;
        VF_ASSERT(o->free(pr, L[nl].p, L[nl].n) == UMF_RESULT_SUCCESS, "a block is freed");
    }
    o->finalize(pr);
    fini_ze_global_state();
    VF_ASSERT(vf_ba_live == 0 && opened_lib == 0 && livecount() == 0, "the provider leaves nothing behind");
    VF_REACH("end");
}
