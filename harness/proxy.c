/* P01: the proxy library: every block has one owner (the leak allocator before
 * the pool exists and inside the pool, the pool, or the system allocator below
 * the size threshold) that alone gets its frees, reallocs and size queries.
 * Histories VF_OPS: C create the pool, A malloc/aligned_alloc, Z calloc,
 * F free, R realloc, U usable size, X realloc(NULL)/free(NULL)/foreign, D exit. */
#define _GNU_SOURCE 1
#include "os_model.h"
#include "utils_common.h"
#include "utils_load_library.h"
#include "vf_models.h"
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_os_memory.h>
#ifndef VF_OPS
#define VF_OPS "ACAF"
#endif
#ifndef VF_DIGITS
#define VF_DIGITS 0
#endif
#ifndef VF_FAIL
#define VF_FAIL 0
#endif
#ifndef VF_NEST
#define VF_NEST 0
#endif
#ifndef VF_ALS
#define VF_ALS 0, 64
#endif
#ifndef VF_SIZES /* 1 small, 2 any, 4 near the top */
#define VF_SIZES 2
#endif
#ifndef VF_PRELOAD
#define VF_PRELOAD 1
#endif
void *px_malloc(size_t);
void *px_calloc(size_t, size_t);
void px_free(void *);
void *px_realloc(void *, size_t);
void *px_aligned_alloc(size_t, size_t);
size_t px_usable(void *);
void proxy_lib_create_common(void);
void proxy_lib_destroy_common(void);
enum { LEAK, POOL, SYS };
#define NB 10
static struct blk {
    uintptr_t p;
    size_t n;
    int own;
    bool live;
} B[NB];
static int nb, depth, fails, created, destroyed, nest;
static void *nested[4];
static uint64_t threshold;
static int the_pool, the_prov, the_params;
/* the calls of the pool and system models */
static int calls[3], last_op, refused;
static void *last_ptr;
static size_t last_n, last_al;
void os_unmapped(uintptr_t a, size_t l) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].own == LEAK)
            VF_ASSERT((B[i].p + B[i].n <= a) | (B[i].p >= a + l), "no memory in use goes back to the OS");
}
static bool fail(void) {
    if (fails > 0 && nd_choice()) {
        fails--;
        refused++;
        return true;
    }
    return false;
}
enum { O_ALLOC = 1, O_CALLOC, O_ALIGNED, O_FREE, O_REALLOC, O_USABLE };
static void call(int who, int op, void *p, size_t n, size_t al) {
    calls[who]++;
    last_op = op, last_ptr = p, last_n = n, last_al = al;
}
static void *fresh(int own, size_t n, size_t al) {
    if ((n > (1ull << 40)) || fail()) {
        refused++;
        return NULL;
    }
    uintptr_t a = nd_range(1ull << 38, 1ull << 39) << 6;
    if (al > 64)
        a = nd_range(1ull << 32, 1ull << 33) << 12;
    VF_ASSERT(al <= 4096, "harness");
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].own != LEAK)
            VF_ASSUME((B[i].p + B[i].n < a) | (a + n < B[i].p));
    (void)own;
    return (void *)a;
}
static bool owned(int own, void *p) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].own == own && B[i].p == (uintptr_t)p)
            return true;
    return false;
}
static void enter(void) {
    VF_ASSERT(depth == 0, "the pool is not entered again from within");
    depth++;
    if (VF_NEST && nest < 4 && nd_choice()) { /* a pool manager that allocates */
        void *q = px_malloc(40);
        VF_ASSERT(q && os_block((uintptr_t)q) >= 0, "what the pool needs comes from elsewhere");
        if (nest && nd_choice())
            px_free(nested[--nest]);
        nested[nest++] = q;
        VF_REACH("nested");
    }
}
static void leave(void) { depth--; }
void *umfPoolMalloc(umf_memory_pool_handle_t h, size_t n) {
    VF_ASSERT((void *)h == &the_pool && created && !destroyed, "the pool is used while it exists");
    enter();
    call(POOL, O_ALLOC, NULL, n, 0);
    leave();
    return fresh(POOL, n, 0);
}
void *umfPoolCalloc(umf_memory_pool_handle_t h, size_t m, size_t n) {
    VF_ASSERT((void *)h == &the_pool && created && !destroyed, "the pool is used while it exists");
    enter();
    size_t t;
    bool over = __builtin_mul_overflow(m, n, &t);
    call(POOL, O_CALLOC, NULL, t, 0);
    leave();
    if (over) {
        refused++;
        return NULL;
    }
    return fresh(POOL, t, 0);
}
void *umfPoolAlignedMalloc(umf_memory_pool_handle_t h, size_t n, size_t al) {
    VF_ASSERT((void *)h == &the_pool && created && !destroyed, "the pool is used while it exists");
    enter();
    call(POOL, O_ALIGNED, NULL, n, al);
    leave();
    return fresh(POOL, n, al);
}
umf_result_t umfPoolFree(umf_memory_pool_handle_t h, void *p) {
    VF_ASSERT((void *)h == &the_pool && owned(POOL, p), "the pool frees its own blocks only");
    depth++;
    call(POOL, O_FREE, p, 0, 0);
    depth--;
    return UMF_RESULT_SUCCESS;
}
void *umfPoolRealloc(umf_memory_pool_handle_t h, void *p, size_t n) {
    VF_ASSERT((void *)h == &the_pool && owned(POOL, p), "the pool reallocates its own blocks only");
    enter();
    call(POOL, O_REALLOC, p, n, 0);
    leave();
    return fresh(POOL, n, 0);
}
size_t umfPoolMallocUsableSize(umf_memory_pool_handle_t h, void *p) {
    VF_ASSERT((void *)h == &the_pool && owned(POOL, p), "the pool sizes its own blocks only");
    call(POOL, O_USABLE, p, 0, 0);
    return 777;
}
umf_memory_pool_handle_t umfPoolByPtr(const void *p) {
    return created && !destroyed && owned(POOL, (void *)p) ? (void *)&the_pool : NULL;
}
static void *sys_malloc(size_t n) {
    call(SYS, O_ALLOC, NULL, n, 0);
    return fresh(SYS, n, 0);
}
static void *sys_calloc(size_t m, size_t n) {
    size_t t;
    bool over = __builtin_mul_overflow(m, n, &t);
    call(SYS, O_CALLOC, NULL, t, 0);
    if (over) {
        refused++;
        return NULL;
    }
    return fresh(SYS, t, 0);
}
static void *sys_aligned(size_t al, size_t n) {
    call(SYS, O_ALIGNED, NULL, n, al);
    return fresh(SYS, n, al);
}
static void sys_free(void *p) {
    VF_ASSERT(owned(SYS, p), "the system allocator frees its own blocks only");
    call(SYS, O_FREE, p, 0, 0);
}
static void *sys_realloc(void *p, size_t n) {
    VF_ASSERT(owned(SYS, p), "the system allocator reallocates its own blocks only");
    call(SYS, O_REALLOC, p, n, 0);
    return fresh(SYS, n, 0);
}
static size_t sys_usable(void *p) {
    VF_ASSERT(owned(SYS, p), "the system allocator sizes its own blocks only");
    call(SYS, O_USABLE, p, 0, 0);
    return 777;
}
void *utils_get_symbol_addr(void *h, const char *name, const char *lib) {
    (void)h, (void)lib;
    return !strcmp(name, "malloc") ? (void *)sys_malloc : !strcmp(name, "calloc") ? (void *)sys_calloc : !strcmp(name, "free") ? (void *)sys_free :
           !strcmp(name, "realloc") ? (void *)sys_realloc : !strcmp(name, "aligned_alloc") ? (void *)sys_aligned : !strcmp(name, "malloc_usable_size") ? (void *)sys_usable : NULL;
}
static bool shared;
static const char *shm = "";
umf_result_t umfOsMemoryProviderParamsCreate(umf_os_memory_provider_params_handle_t *h) {
    *h = (void *)&the_params;
    void *q = px_malloc(24);
    VF_ASSERT(q && os_block((uintptr_t)q) >= 0, "memory is there before the pool");
    px_free(q);
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfOsMemoryProviderParamsDestroy(umf_os_memory_provider_params_handle_t h) {
    VF_ASSERT((void *)h == &the_params, "the parameters are destroyed");
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfOsMemoryProviderParamsSetVisibility(umf_os_memory_provider_params_handle_t h, umf_memory_visibility_t v) {
    (void)h;
    shared = v == UMF_MEM_MAP_SHARED;
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfOsMemoryProviderParamsSetShmName(umf_os_memory_provider_params_handle_t h, const char *n) {
    (void)h;
    shm = n ? "x" : NULL;
    return UMF_RESULT_SUCCESS;
}
umf_memory_provider_ops_t *umfOsMemoryProviderOps(void) { return (void *)&the_prov; }
umf_memory_pool_ops_t *umfScalablePoolOps(void) { return (void *)&the_prov; }
umf_result_t umfMemoryProviderCreate(const umf_memory_provider_ops_t *o, void *par, umf_memory_provider_handle_t *h) {
    VF_ASSERT((void *)o == &the_prov && par == &the_params, "the OS memory provider is created");
    *h = (void *)&the_prov;
    return UMF_RESULT_SUCCESS;
}
void umfMemoryProviderDestroy(umf_memory_provider_handle_t h) {
    VF_ASSERT((void *)h == &the_prov && destroyed == 1, "the provider goes after the pool");
    destroyed = 2;
}
umf_result_t umfPoolCreate(const umf_memory_pool_ops_t *o, umf_memory_provider_handle_t p, void *par, umf_pool_create_flags_t f, umf_memory_pool_handle_t *h) {
    (void)par, (void)f;
    VF_ASSERT((void *)o == &the_prov && (void *)p == &the_prov, "the pool is created over the OS memory");
    void *q = px_malloc(1000);
    VF_ASSERT(q && os_block((uintptr_t)q) >= 0, "memory is there before the pool");
    *h = (void *)&the_pool;
    return UMF_RESULT_SUCCESS;
}
void umfPoolDestroy(umf_memory_pool_handle_t h) {
    VF_ASSERT((void *)h == &the_pool && !destroyed, "the pool is destroyed once");
    destroyed = 1;
}
int vf_sprintf_stub;
#define PAT(i) ((unsigned char)(0x51 + 7 * (i)))
#define CAP 128 /* bytes of a leak block that are written and checked */
static size_t lim(size_t n) { return n < CAP ? n : CAP; }
static void fill(int i) {
    if (B[i].own == LEAK)
        memset((void *)B[i].p, PAT(i), VF_FORK(lim(B[i].n)));
}
static void intact(void) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].own == LEAK) {
            unsigned char *c = (void *)B[i].p;
            for (size_t k = 0; k < lim(B[i].n); k += lim(B[i].n) > 1 ? lim(B[i].n) - 1 : 1)
                VF_ASSERT(c[k] == PAT(i), "the content of a block in use is left alone");
        }
}
/* a new block */
static void got(void *q, size_t n, size_t al, int from) {
    uintptr_t p = (uintptr_t)q;
    int b = os_block(p);
    if (nb == NB)
        VF_LIMIT("blocks");
    int own = b >= 0 ? LEAK : from;
    if (own == LEAK) {
        VF_ASSERT((n <= os_len[b]) & (p - os_base[b] <= os_len[b] - n), "a block has room for the requested size");
        for (int i = 0; i < nb; i++)
            if (B[i].live && B[i].own == LEAK)
                VF_ASSERT((B[i].p + B[i].n <= p) | (p + n <= B[i].p), "blocks in use do not overlap");
        for (int i = 0; i < nest; i++)
            VF_ASSERT(((uintptr_t)nested[i] + 40 <= p) | (p + n <= (uintptr_t)nested[i]), "blocks in use do not overlap");
    }
    VF_ASSERT((p & ((al ? al : 16) - 1) & 4095) == 0 || (!al && own == LEAK && p % 8 == 0), "a block has the requested alignment");
    B[nb++] = (struct blk){p, n, own, true};
}
/* where a request of n bytes belongs */
static int home(size_t n) { return n < threshold ? SYS : created && !destroyed ? POOL : LEAK; }
static int before[3];
static void mark(void) {
    for (int k = 0; k < 3; k++)
        before[k] = calls[k];
}
static void routed(int who, int op, void *p) {
    for (int k = 1; k < 3; k++)
        VF_ASSERT(calls[k] == before[k] + (k == who), "the owner of a block, and nobody else, gets the call");
    if (who != LEAK)
        VF_ASSERT(last_op == op && last_ptr == p, "the call is passed on as it is");
}
static size_t nd_size(void) {
    static const size_t s[] = {0, 24, 100};
    unsigned k[3], c = 0;
    for (unsigned b = 0; b < 3; b++)
        if (VF_SIZES & (1 << b))
            k[c++] = b;
    switch (k[nd_pick(c)]) {
    case 0:
        return s[nd_pick(3)];
    case 1:
        return nd_range(CAP, 2000);
    default:
        return nd_range(~0ull - 8192, ~0ull);
    }
}
static int pick(void) {
    int k[NB], n = 0;
    for (int i = 0; i < nb; i++)
        if (B[i].live)
            k[n++] = i;
    return n ? k[nd_pick(n)] : -1;
}
void VF_ENTRY(void) {
    static char env[48] = "page.disposition=private;size.threshold=";
    static char env2[64];
    static const char script[] = VF_OPS;
    if (VF_DIGITS) {
        strcpy(env2, env);
        size_t l = strlen(env2);
        uint64_t v = 0;
        for (int i = 0; i < VF_DIGITS; i++) {
            uint64_t d = VF_FORK(nd_range(i ? 0 : 1, i ? 1 : 2));
            env2[l + i] = (char)('0' + d);
            v = v * 10 + d;
        }
        threshold = v;
        setenv("UMF_PROXY", env2, 1);
    } else
        setenv("UMF_PROXY", nd_choice() ? "" : "page.disposition=shared-fd", 1);
    uint64_t set = threshold;
    threshold = 0;
    setenv("LD_PRELOAD", VF_PRELOAD ? "/x/libumf_proxy.so" : "", 1);
    for (unsigned s = 0; s < sizeof(script) - 1; s++) {
        int i, ref = refused + os_refused;
        mark();
        switch (script[s]) {
        case 'C':
            fails = 0;
            proxy_lib_create_common();
            created = 1;
            threshold = set;
            VF_ASSERT(calls[POOL] == 0, "the pool is used once it is there");
            fails = VF_FAIL;
            VF_REACH("created");
            break;
        case 'A': {
            static const size_t als[] = {VF_ALS};
            size_t n = nd_size(), al = als[nd_pick(sizeof als / sizeof *als)];
            int h = VF_FORK(home(n));
            void *q = al ? px_aligned_alloc(al, n) : px_malloc(n);
            routed(h, al ? O_ALIGNED : O_ALLOC, NULL);
            if (h != LEAK)
                VF_ASSERT(last_n == n && last_al == al, "the size and alignment are passed on");
            if (q) {
                got(q, n, al, h);
                VF_ASSERT(B[nb - 1].own == h, "a block comes from where it should");
                fill(nb - 1);
                VF_REACH("alloc");
            } else {
                VF_ASSERT((n == 0) | (n > (1ull << 39)) | (refused + os_refused != ref), "a request is refused only for a reason");
                VF_REACH("refused");
            }
            break;
        }
        case 'Z': {
            static const size_t ms[] = {1, 3, 1ull << 62, ~0ull};
            static const size_t m1[] = {0, 1, 7, 30};
            size_t m = nd_pick(2) ? m1[nd_pick(4)] : nd_range((1ull << 61) - 2, (1ull << 63) + 2), n = ms[nd_pick(4)], t;
            bool over = __builtin_mul_overflow(m, n, &t);
            void *q = px_calloc(m, n);
            for (int k = 1; k < 3; k++)
                VF_ASSERT(calls[k] - before[k] <= 1, "one owner is called");
            int h = calls[SYS] != before[SYS] ? SYS : calls[POOL] != before[POOL] ? POOL : LEAK;
            VF_ASSERT(over | (h == home(t)), "a block comes from where it should");
            if (q) {
                VF_ASSERT(!over, "an array that does not fit the address space is refused");
                got(q, t, 0, h);
                if (B[nb - 1].own == LEAK) {
                    size_t l = VF_FORK(lim(t));
                    for (size_t k = 0; k < l; k++)
                        VF_ASSERT(((char *)q)[k] == 0, "an array is zeroed");
                }
                fill(nb - 1);
                VF_REACH("calloc");
            } else
                VF_ASSERT(over | (t == 0) | (t > (1ull << 39)) | (refused + os_refused != ref), "a request is refused only for a reason");
            break;
        }
        case 'F':
            if ((i = pick()) < 0)
                break;
            px_free((void *)B[i].p);
            routed(B[i].own, O_FREE, (void *)B[i].p);
            B[i].live = false;
            VF_REACH("free");
            break;
        case 'R': {
            static const size_t s2[] = {0, 8, 200};
            if ((i = pick()) < 0)
                break;
            size_t n = s2[nd_pick(3)];
            void *q = px_realloc((void *)B[i].p, n);
            routed(B[i].own, n ? O_REALLOC : O_FREE, (void *)B[i].p);
            if (n == 0) {
                VF_ASSERT(q == NULL, "nothing is left of a block made empty");
                B[i].live = false;
            } else if (q) {
                if (B[i].own != LEAK)
                    VF_ASSERT(last_n == n, "the size is passed on");
                B[i].live = false;
                got(q, n, 0, B[i].own);
                VF_ASSERT(B[nb - 1].own == B[i].own, "a block stays with its owner");
                if (B[i].own == LEAK) {
                    size_t k = VF_FORK(lim(B[i].n < n ? B[i].n : n));
                    for (size_t j = 0; j < k; j++)
                        VF_ASSERT(((unsigned char *)q)[j] == PAT(i), "the content moves with the block");
                }
                fill(nb - 1);
                VF_REACH("realloc");
            } else
                VF_ASSERT(refused + os_refused != ref, "a request is refused only for a reason");
            break;
        }
        case 'U':
            if ((i = pick()) < 0)
                break;
            {
                size_t u = px_usable((void *)B[i].p);
                routed(B[i].own, O_USABLE, (void *)B[i].p);
                VF_ASSERT(u == (B[i].own == LEAK ? 0 : 777), "the owner tells the size");
            }
            break;
        case 'X': {
            px_free(NULL);
            routed(LEAK, 0, NULL);
            size_t n = nd_range(CAP, 2000);
            int h = VF_FORK(home(n));
            void *q = px_realloc(NULL, n);
            routed(h, O_ALLOC, NULL);
            if (q) {
                got(q, n, 0, h);
                fill(nb - 1);
            } else
                VF_ASSERT(refused + os_refused != ref, "a request is refused only for a reason");
            break;
        }
        case 'D':
            proxy_lib_destroy_common();
            if (VF_PRELOAD) {
                VF_ASSERT(!destroyed, "a program being unloaded can still free and allocate");
            } else {
                VF_ASSERT(destroyed == 2, "the pool and the provider are destroyed");
                for (int k = 0; k < nb; k++)
                    if (B[k].own == POOL)
                        B[k].live = false;
            }
            break;
        }
        intact();
    }
    VF_REACH("end");
}
