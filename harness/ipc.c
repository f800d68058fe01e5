/* IPC handles through pools: two upstream providers, each both producer and
 * consumer; a book of every upstream call. */
#include "base_alloc_global.h"
#include "ipc_cache.h"
#include "ipc_internal.h"
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/ipc.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider_ops.h>
umf_memory_tracker_handle_t TRACKER;
int libumfInit(void) { return 0; }
int utils_getpid(void) { return 77; }
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_UPFAIL
#define VF_UPFAIL 0
#endif
#ifndef VF_MAX
#define VF_MAX "0"
#endif
#ifndef VF_IDLE
#define VF_IDLE 0
#endif
#define NB 6
#define NMAP 16
#define NH 8
static int upfail, nfail;
static bool refuse(void) {
    if (upfail > 0 && nd_choice()) {
        upfail--;
        nfail++;
        return true;
    }
    return false;
}
/* blocks of the producers */
static struct blk {
    int prov;
    size_t n;
    bool live;
    int gets, puts;
    uint64_t id;
    uintptr_t base;
} B[NB];
static int nb;
/* mappings of the consumers */
static struct map {
    int prov, blk;
    uintptr_t base;
    bool live;
    int refs;
} M[NMAP];
static int nm;
/* handles */
static struct hnd {
    umf_ipc_handle_t h;
    int blk;
    size_t off;
} H[NH];
static int nh;
/* open pointers */
static struct opn {
    int map;
    void *p;
    bool open;
} O[NH];
static int no;
static size_t limit, peak;
static bool remap_ok; /* the old mapping may be on its way out */
static char privs[2];
VF_QUIET static int who(void *p) { return (int)((char *)p - privs); }
struct wire {
    uint32_t magic, blk;
};
static umf_result_t up_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void up_fini(void *priv) { (void)priv; }
static uintptr_t next_base;
static umf_result_t up_alloc(void *priv, size_t size, size_t al, void **ptr) {
    (void)priv, (void)size, (void)al;
    *ptr = (void *)next_base;
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_free(void *priv, void *ptr, size_t size) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].prov >= 0 && B[i].base == (uintptr_t)ptr) {
            VF_ASSERT(B[i].prov == who(priv) && B[i].n == size,
                      "a block goes back to its provider");
            VF_ASSERT(B[i].gets == B[i].puts,
                      "every handle got from the provider was put back before "
                      "the memory is freed");
            B[i].live = false;
            return UMF_RESULT_SUCCESS;
        }
    VF_ASSERT(0, "only live blocks are freed");
    return UMF_RESULT_SUCCESS;
}
static void up_err(void *p, const char **m, int32_t *e) { (void)p, (void)m, (void)e; }
static umf_result_t up_page(void *p, size_t s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_page2(void *p, void *s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *up_name(void *p) {
    (void)p;
    return "up";
}
static umf_result_t up_hsize(void *p, size_t *s) {
    (void)p;
    *s = sizeof(struct wire);
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_get(void *priv, const void *ptr, size_t size, void *d) {
    int i = 0;
    while (i < nb && !(B[i].live && B[i].prov >= 0 && B[i].base == (uintptr_t)ptr))
        i++;
    VF_ASSERT(i < nb && B[i].prov == who(priv) && B[i].n == size,
              "a handle is made of a whole live block of the provider");
    if (refuse())
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    B[i].gets++;
    struct wire w = {0xabcd, (uint32_t)i};
    memcpy(d, &w, sizeof w);
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_put(void *priv, void *d) {
    struct wire w;
    memcpy(&w, d, sizeof w);
    VF_ASSERT(w.magic == 0xabcd && w.blk < (uint32_t)nb && B[w.blk].prov == who(priv),
              "a handle is put back as it was got");
    B[w.blk].puts++;
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_open(void *priv, void *d, void **ptr) {
    struct wire w;
    memcpy(&w, d, sizeof w);
    VF_ASSERT(w.magic == 0xabcd && w.blk < (uint32_t)nb,
              "the provider sees the handle that was made");
    if (refuse())
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    for (int i = 0; i < nm && !remap_ok; i++)
        VF_ASSERT(!(M[i].live && M[i].prov == who(priv) && M[i].blk == (int)w.blk),
                  "a handle that is mapped is not mapped again");
    int s = 0; /* the lowest free address slot: addresses are reused */
    for (;; s++) {
        int i = 0;
        while (i < nm && !(M[i].live && M[i].base == (((uintptr_t)s + 1) << 44)))
            i++;
        if (i == nm)
            break;
    }
    if (nm == NMAP)
        VF_LIMIT("mappings");
    M[nm++] = (struct map){who(priv), (int)w.blk, ((uintptr_t)s + 1) << 44, true, 0};
    *ptr = (void *)M[nm - 1].base;
    return UMF_RESULT_SUCCESS;
}
VF_QUIET static umf_result_t up_close(void *priv, void *ptr, size_t size) {
    int i = 0;
    while (i < nm && !(M[i].live && M[i].base == (uintptr_t)ptr))
        i++;
    VF_ASSERT(i < nm, "only live mappings are closed");
    VF_ASSERT(M[i].prov == who(priv), "a mapping is closed by the provider that opened it");
    VF_ASSERT(B[M[i].blk].n == size, "a mapping is closed with its size");
    VF_ASSERT(M[i].refs == 0, "a mapping in use is not closed");
    M[i].live = false;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t pl_init(umf_memory_provider_handle_t prov, void *par, void **o) {
    (void)par;
    *o = prov;
    return UMF_RESULT_SUCCESS;
}
static void pl_fini(void *p) { (void)p; }
static umf_memory_provider_handle_t UP[2];
static umf_memory_pool_handle_t POOL[2];
static umf_ipc_handler_handle_t HD[2];
static umf_memory_pool_ops_t PO;
static int live_maps(void) {
    int k = 0;
    for (int i = 0; i < nm; i++)
        k += M[i].live;
    return k;
}
#ifndef VF_MODE
/* the cache may grow while all its mappings are in use (or being opened) */
static void check_limit(size_t used) {
    for (int i = 0; i < nm; i++)
        used += M[i].live && M[i].refs;
    if (used > peak)
        peak = used;
    if (limit)
        VF_ASSERT((size_t)live_maps() <= (peak > limit ? peak : limit),
                  "no more mappings are kept than allowed");
}
static void op(char c) {
    switch (c) {
    case 'A': {
        int p = nd_pick(2);
        size_t n = nd_range(1, 1ull << 40);
        void *q = NULL;
        /* the lowest free slot of the provider: addresses are reused */
        for (int s = 0;; s++) {
            next_base = ((uintptr_t)(s * 2 + p) + 1) << 41;
            int i = 0;
            while (i < nb && !(B[i].live && B[i].base == next_base))
                i++;
            if (i == nb)
                break;
        }
        if (nb == NB)
            VF_LIMIT("blocks");
        int keep = vf_ba_fail_budget; /* failing allocations: T02 */
        vf_ba_fail_budget = 0;
        VF_ASSERT(umfMemoryProviderAlloc(POOL[p]->provider, n, 0, &q) == UMF_RESULT_SUCCESS,
                  "an allocation succeeds");
        vf_ba_fail_budget = keep;
        B[nb++] = (struct blk){p, n, true, 0, 0, 0, next_base};
        VF_REACH("alloc");
        break;
    }
    case 'H': { /* any address of any live block */
        int i = (int)nd_pick(nb);
        VF_ASSUME(B[i].live && B[i].prov >= 0 && nh < NH);
        size_t off = nd_u64(), size = 0;
        VF_ASSUME(off < B[i].n);
        int g = B[i].gets, pf = nfail, bf = vf_ba_failed;
        umf_ipc_handle_t h = NULL;
        umf_result_t r = umfGetIPCHandle((void *)(B[i].base + off), &h, &size);
        VF_ASSERT(B[i].gets <= g + 1 && B[i].gets - B[i].puts <= 1,
                  "at most one provider handle is held for a block");
        if (r != UMF_RESULT_SUCCESS) {
            VF_ASSERT(nfail > pf || vf_ba_failed > bf, "a handle is refused only for a reason");
            VF_REACH("no handle");
            break;
        }
        struct wire w;
        memcpy(&w, h->providerIpcData, sizeof w);
        VF_ASSERT(size == sizeof(umf_ipc_data_t) + sizeof(struct wire), "the size of a handle");
        VF_ASSERT((h->base == (void *)B[i].base) & (h->baseSize == B[i].n) & (h->offset == off) &
                      (h->pid == 77) & (w.magic == 0xabcd) & (w.blk == (uint32_t)i),
                  "a handle describes the block and the position in it");
        for (int j = 0; j < nb; j++)
            if (B[j].id)
                VF_ASSERT((B[j].id == h->handle_id) == (j == i),
                          "handle numbers tell allocations apart");
        B[i].id = h->handle_id;
        H[nh++] = (struct hnd){h, i, off};
        VF_REACH("handle");
        break;
    }
    case 'T': { /* another process exports a block that has the address of a
                   block of this one, perhaps with the same number */
        int i = (int)nd_pick(nh);
        VF_ASSUME(H[i].h && B[H[i].blk].prov >= 0 && nh < NH);
        if (nb == NB)
            VF_LIMIT("blocks");
        size_t sz = sizeof(umf_ipc_data_t) + sizeof(struct wire);
        int keep = vf_ba_fail_budget;
        vf_ba_fail_budget = 0;
        umf_ipc_handle_t h = umf_ba_global_alloc(sz);
        vf_ba_fail_budget = keep;
        memcpy(h, H[i].h, sz);
        struct wire w = {0xabcd, (uint32_t)nb};
        memcpy(h->providerIpcData, &w, sizeof w);
        h->pid = 78; /* part of a hash key: a fixed number */
        if (nd_choice())
            h->handle_id = nd_u64();
        h->baseSize = nd_range(1, 1ull << 40);
        h->offset = nd_u64();
        VF_ASSUME(h->offset < h->baseSize);
        B[nb] = (struct blk){-1, h->baseSize, true, 0, 0, 0, (uintptr_t)h->base};
        H[nh++] = (struct hnd){h, nb++, h->offset};
        VF_REACH("twin");
        break;
    }
    case 'P': {
        VF_ASSUME(nh > 0 && H[nh - 1].h);
        VF_ASSERT(umfPutIPCHandle(H[nh - 1].h) == UMF_RESULT_SUCCESS, "a handle can be put");
        H[nh - 1].h = NULL;
        break;
    }
    case 'O': {
        if (!nh)
            break;
        int i = (int)nd_pick(nh), k = (int)nd_pick(2);
        VF_ASSUME(H[i].h && B[H[i].blk].live && no < NH);
        int pf = nfail, bf = vf_ba_failed;
        void *p = NULL;
        umf_result_t r = umfOpenIPCHandle(HD[k], H[i].h, &p);
        if (r != UMF_RESULT_SUCCESS) {
            VF_ASSERT(nfail > pf || vf_ba_failed > bf || vf_lock_init_may_fail, "opening is refused only for a reason");
            check_limit(1);
            VF_REACH("not opened");
            break;
        }
        int m = 0;
        while (m < nm && !(M[m].live && M[m].prov == k && M[m].blk == H[i].blk))
            m++;
        VF_ASSERT(m < nm, "an opened handle is mapped by the handler's provider");
        VF_ASSERT(p == (void *)(M[m].base + H[i].off), "the same position in the mapping");
        M[m].refs++;
        O[no++] = (struct opn){m, p, true};
        check_limit(0);
        VF_REACH("opened");
        break;
    }
    case 'C': {
        if (!no)
            break;
        int i = (int)nd_pick(no);
        VF_ASSUME(O[i].open);
        O[i].open = false;
        M[O[i].map].refs--;
        VF_ASSERT(umfCloseIPCHandle(O[i].p) == UMF_RESULT_SUCCESS, "an opened pointer can be closed");
        VF_REACH("closed");
        break;
    }
    case 'F': {
        int i = (int)nd_pick(nb);
        VF_ASSUME(B[i].live && B[i].prov >= 0);
        for (int m = 0; m < nm; m++) /* consumers close before the producer frees */
            VF_ASSUME(M[m].blk != i || M[m].refs == 0);
        VF_ASSERT(umfMemoryProviderFree(POOL[B[i].prov]->provider, (void *)B[i].base, B[i].n) ==
                      UMF_RESULT_SUCCESS, "a block can be freed");
        VF_ASSERT(!B[i].live, "a freed block goes back to the provider");
        VF_REACH("free");
        break;
    }
    case 'E': { /* bad arguments */
        umf_ipc_handle_t h = NULL;
        umf_ipc_handler_handle_t hd = NULL;
        size_t size = 5;
        uintptr_t q = nd_u64();
        bool in = false;
        for (int i = 0; i < nb; i++)
            if (B[i].live)
                in |= q - B[i].base < B[i].n;
        VF_ASSUME(!in);
        void *p = (void *)B[0].base;
        bool refused = true;
        switch (nd_pick(8)) {
        case 0: refused = umfGetIPCHandle(NULL, &h, &size) != UMF_RESULT_SUCCESS; break;
        case 1: refused = umfGetIPCHandle(p, NULL, &size) != UMF_RESULT_SUCCESS; break;
        case 2: refused = umfGetIPCHandle(p, &h, NULL) != UMF_RESULT_SUCCESS; break;
        case 3: refused = umfGetIPCHandle((void *)q, &h, &size) != UMF_RESULT_SUCCESS; break;
        case 4: refused = umfPoolGetIPCHandleSize(NULL, &size) != UMF_RESULT_SUCCESS; break;
        case 5: refused = umfPoolGetIPCHandleSize(POOL[0], NULL) != UMF_RESULT_SUCCESS; break;
        case 6: refused = umfPoolGetIPCHandler(NULL, &hd) != UMF_RESULT_SUCCESS; break;
        case 7: refused = umfPoolGetIPCHandler(POOL[0], NULL) != UMF_RESULT_SUCCESS; break;
        }
        VF_ASSERT(refused, "bad arguments are refused");
        VF_ASSERT(h == NULL && hd == NULL && size == 5, "a refused request changes nothing");
        VF_ASSERT(umfPoolGetIPCHandleSize(POOL[1], &size) == UMF_RESULT_SUCCESS &&
                      size == sizeof(umf_ipc_data_t) + sizeof(struct wire), "the size of a pool's handles");
        VF_REACH("bad");
        break;
    }
    case 'R': { /* the pool goes, with its cached mappings; a new one comes */
        int k = (int)nd_pick(2), keep = vf_ba_fail_budget;
        for (int m = 0; m < nm; m++)
            VF_ASSUME(M[m].prov != k || M[m].refs == 0);
        for (int i = 0; i < nb; i++)
            VF_ASSUME(B[i].prov != k || !B[i].live);
        umfPoolDestroy(POOL[k]);
        for (int m = 0; m < nm; m++)
            VF_ASSERT(M[m].prov != k || !M[m].live, "a pool's mappings are closed with it");
        vf_ba_fail_budget = 0;
        VF_ASSERT(umfPoolCreate(&PO, UP[k], NULL, 0, &POOL[k]) == UMF_RESULT_SUCCESS &&
                      umfPoolGetIPCHandler(POOL[k], &HD[k]) == UMF_RESULT_SUCCESS, "a pool can be made");
        vf_ba_fail_budget = keep;
        VF_REACH("renewed");
        break;
    }
    case 'X': { /* an address that is no mapping's */
        uintptr_t q = nd_u64();
        bool in = false;
        for (int m = 0; m < nm; m++)
            if (M[m].live)
                in |= q >= M[m].base && q < M[m].base + B[M[m].blk].n;
        VF_ASSUME(!in);
        VF_ASSERT(umfCloseIPCHandle((void *)q) != UMF_RESULT_SUCCESS,
                  "an address that is not mapped cannot be closed");
        break;
    }
    }
}
#endif
static void setup(void) {
    umf_memory_provider_ops_t ops;
    memset(&ops, 0, sizeof ops);
    ops.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    ops.initialize = up_init, ops.finalize = up_fini, ops.alloc = up_alloc, ops.free = up_free;
    ops.get_last_native_error = up_err, ops.get_recommended_page_size = up_page;
    ops.get_min_page_size = up_page2, ops.get_name = up_name;
    ops.ipc.get_ipc_handle_size = up_hsize, ops.ipc.get_ipc_handle = up_get;
    ops.ipc.put_ipc_handle = up_put, ops.ipc.open_ipc_handle = up_open;
    ops.ipc.close_ipc_handle = up_close;
    PO.version = UMF_POOL_OPS_VERSION_CURRENT;
    PO.initialize = pl_init, PO.finalize = pl_fini;
    setenv("UMF_MAX_OPENED_IPC_HANDLES", VF_MAX, 1);
    limit = VF_MAX[0] - '0';
    TRACKER = umfMemoryTrackerCreate();
    VF_MADE(umfIpcCacheGlobalInit() == UMF_RESULT_SUCCESS);
    for (int i = 0; i < 2; i++) {
        VF_MADE(umfMemoryProviderCreate(&ops, &privs[i], &UP[i]) == UMF_RESULT_SUCCESS);
        VF_MADE(umfPoolCreate(&PO, UP[i], NULL, 0, &POOL[i]) == UMF_RESULT_SUCCESS);
        VF_MADE(umfPoolGetIPCHandler(POOL[i], &HD[i]) == UMF_RESULT_SUCCESS);
    }
}
static void finish(void) {
    for (int i = 0; i < no; i++)
        if (O[i].open) {
            M[O[i].map].refs--;
            VF_ASSERT(umfCloseIPCHandle(O[i].p) == UMF_RESULT_SUCCESS,
                      "an opened pointer can be closed");
        }
    for (int i = 0; i < nh; i++)
        if (H[i].h)
            umfPutIPCHandle(H[i].h);
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].prov >= 0)
            VF_ASSERT(umfMemoryProviderFree(POOL[B[i].prov]->provider, (void *)B[i].base,
                                            B[i].n) == UMF_RESULT_SUCCESS && !B[i].live,
                      "a block can be freed");
    for (int i = 0; i < 2; i++) {
        umfPoolDestroy(POOL[i]);
        umfMemoryProviderDestroy(UP[i]);
    }
    VF_ASSERT(live_maps() == 0, "every mapping is closed in the end");
    for (int i = 0; i < nb; i++)
        VF_ASSERT(B[i].gets == B[i].puts, "every provider handle is put back");
    umfIpcCacheGlobalTearDown();
    umfMemoryTrackerDestroy(TRACKER);
    VF_ASSERT(vf_ba_live == 0 && vf_maps_live == 0 && vf_bapools_live == 0, "nothing stays behind");
    VF_ASSERT(vf_locks_held == 0 && vf_locks_live == 0, "no lock stays behind");
    VF_REACH("end");
}
#ifndef VF_MODE
void VF_ENTRY(void) {
    setup();
    vf_ba_fail_budget = VF_OOM;
    upfail = VF_UPFAIL;
#ifdef VF_LOCKFAIL
    vf_lock_init_may_fail = true;
#endif
    static const char ops_[] = VF_OPS;
    for (unsigned i = 0; i + 1 < sizeof ops_; i++)
        op(ops_[i]);
    vf_ba_fail_budget = 0, upfail = 0;
    finish();
}
#else /* threads */
static umf_ipc_handle_t th[2];
VF_QUIET static int blk_of(umf_ipc_handle_t h) {
    struct wire w;
    memcpy(&w, h->providerIpcData, sizeof w);
    VF_ASSERT(w.magic == 0xabcd && w.blk < (uint32_t)nb, "a handle carries the provider's data");
    return (int)w.blk;
}
/* make a handle of an address */
VF_QUIET static umf_ipc_handle_t make(uint64_t q) {
    umf_ipc_handle_t h = NULL;
    size_t size = 0;
    VF_ASSERT(umfGetIPCHandle((void *)q, &h, &size) == UMF_RESULT_SUCCESS,
              "a handle can be made");
    int b = blk_of(h);
    VF_ASSERT(B[b].live && h->base == (void *)B[b].base && h->baseSize == B[b].n &&
                  (uint64_t)h->base + h->offset == q && h->offset < B[b].n && h->pid == 77,
              "a handle describes the block and the position in it");
    return h;
}
/* open, look, close */
VF_QUIET static void use(int k, int i) {
    void *p = NULL;
    int b = H[i].blk;
    VF_ASSERT(umfOpenIPCHandle(HD[k], H[i].h, &p) == UMF_RESULT_SUCCESS, "a handle can be opened");
    int m = 0;
    while (m < nm && !(M[m].live && M[m].prov == k && M[m].blk == b &&
                       (uintptr_t)p == M[m].base + H[i].off))
        m++;
    VF_ASSERT(m < nm, "an opened handle is mapped by the handler's provider");
    M[m].refs++;
    symx_yield();
    VF_ASSERT(M[m].live, "a mapping in use is not closed");
    M[m].refs--;
    VF_ASSERT(umfCloseIPCHandle(p) == UMF_RESULT_SUCCESS, "an opened pointer can be closed");
}
static uint64_t tq[2];
static void t_make(void *a) {
    int i = a != NULL;
    th[i] = make(tq[i]);
#if VF_MODE == 3
    VF_ASSERT(umfPutIPCHandle(th[i]) == UMF_RESULT_SUCCESS, "a handle can be put");
    th[i] = make(tq[i]);
#endif
}
/* an address outside all mappings */
static void t_foreign(void) {
    uint64_t q = nd_u64();
    VF_ASSUME(q < (1ull << 44) || q >= (6ull << 44));
    VF_ASSERT(umfCloseIPCHandle((void *)q) != UMF_RESULT_SUCCESS,
              "an address that is not mapped cannot be closed");
}
static void t_same(void *a) {
    /* while no mapping goes away: a foreign address may share its neighbour's fate */
    if (a && VF_MODE == 5 && !VF_IDLE)
        t_foreign();
    use(0, a != NULL ? VF_MODE == 6 : 0);
#if VF_MODE == 7
    use(0, a != NULL);
#endif
}
static void t_each(void *a) { use(a != NULL, a != NULL); }
VF_QUIET static void t_free(void *a) {
    (void)a;
    VF_ASSERT(umfMemoryProviderFree(POOL[B[1].prov]->provider, (void *)B[1].base, B[1].n) ==
                  UMF_RESULT_SUCCESS && !B[1].live, "a block can be freed");
}
static void block(int p) {
    size_t n = nd_range(1, 1ull << 40);
    void *q = NULL;
    next_base = ((uintptr_t)nb * 2 + 1) << 41;
    VF_ASSERT(umfMemoryProviderAlloc(POOL[p]->provider, n, 0, &q) == UMF_RESULT_SUCCESS,
              "an allocation succeeds");
    B[nb] = (struct blk){p, n, true, 0, 0, 0, next_base};
    nb++;
}
void VF_ENTRY(void) {
    setup();
    block(0);
    block(VF_MODE > 4);
    for (int i = 0; i < 2; i++) { /* any address of the blocks (mode 4: of the first) */
        tq[i] = nd_u64();
        VF_ASSUME((tq[i] - B[0].base < B[0].n) | ((VF_MODE != 4) & (tq[i] - B[1].base < B[1].n)));
    }
#if VF_MODE <= 3 /* handles made at once */
    symx_spawn(t_make, NULL);
    symx_spawn(t_make, privs);
    symx_join_all();
    VF_ASSERT((th[0]->handle_id == th[1]->handle_id) == (blk_of(th[0]) == blk_of(th[1])),
              "handle numbers tell allocations apart");
    for (int i = 0; i < nb; i++)
        VF_ASSERT(B[i].gets - B[i].puts == (blk_of(th[0]) == i || blk_of(th[1]) == i),
                  "one provider handle is held for a block");
    umfPutIPCHandle(th[0]);
    umfPutIPCHandle(th[1]);
#elif VF_MODE == 4 /* a handle is made while another block is freed */
    th[1] = make(B[1].base);
    symx_spawn(t_make, NULL);
    symx_spawn(t_free, NULL);
    symx_join_all();
    umfPutIPCHandle(th[0]);
    umfPutIPCHandle(th[1]);
#else /* opening and closing: 5, 7 one handle, 6 two handles, 8 two handlers */
    for (int i = 0; i < 2; i++) {
        uint64_t off = nd_u64();
        VF_ASSUME(off < B[i].n);
        H[nh++] = (struct hnd){make(B[i].base + off), i, off};
    }
#if VF_IDLE /* a third mapping is in the cache */
    use(1, 1);
#endif
    remap_ok = VF_MAX[0] != '0';
    symx_spawn(VF_MODE == 8 ? t_each : t_same, NULL);
    symx_spawn(VF_MODE == 8 ? t_each : t_same, privs);
    symx_join_all();
    if (limit)
        VF_ASSERT((size_t)live_maps() <= (limit > 2 ? limit : 2),
                  "no more mappings are kept than allowed");
    use(0, 0);
#endif
    finish();
}
#endif
