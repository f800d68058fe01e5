/* F01/V01/X01: the file, devdax and fixed memory providers over a model of the
 * kernel. Histories VF_OPS: A alloc, F free any block, S split, M merge two
 * adjacent blocks, H export a block and import it, C close an import, P purge,
 * D free everything. */
#define _GNU_SOURCE 1
#include "kernel_model.h"
#include "vf_models.h"
#include <stdlib.h>
#include <umf/memory_provider_ops.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#ifdef VF_SYMX
void libumfInit(void) {}
#endif
#ifndef VF_OPS
#define VF_OPS "AFA"
#endif
#ifndef VF_KIND
#define VF_KIND 0 /* 0 file, 1 fixed, 2 devdax */
#endif
#ifndef VF_DAX
#define VF_DAX 0
#endif
#ifndef VF_VIS
#define VF_VIS 1
#endif
#ifndef VF_ALS
#define VF_ALS 0, 64, 8192, (2ull << 20)
#endif
#ifndef VF_MAXSZ
#define VF_MAXSZ (~0ull)
#endif
#ifndef VF_ADJ
#define VF_ADJ 0
#endif
#ifndef VF_KFAIL
#define VF_KFAIL 0
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_LOCKFAIL
#define VF_LOCKFAIL 0
#endif
#define NELEM(a) (sizeof(a) / sizeof((a)[0]))
#define PAGE ((uint64_t)(VF_DAX || VF_KIND == 2 ? 2ull << 20 : 4096))
#define NB 8
static struct blk {
    uintptr_t p;
    size_t n;
    bool live;
} B[NB];
static struct imp {
    uintptr_t p;
    size_t n;
    bool live;
} I[4];
static int nb, ni;
static umf_memory_provider_ops_t *ops;
static void *prov;
static uintptr_t base;
static size_t total;
static bool oomed;
static int want_prot = PROT_READ | PROT_WRITE, want_vis = VF_VIS ? MAP_SHARED : MAP_PRIVATE;

static bool inside(uintptr_t p, size_t n) { return (p >= base) & (n <= total) & (p - base <= total - n); }
static void check(void) {
    for (int i = 0; i < nb; i++)
        if (B[i].live) {
            if (VF_KIND != 1)
                VF_ASSERT(kcovered(B[i].p, B[i].n), "a live block is mapped entirely");
            if (VF_KIND != 0)
                VF_ASSERT(inside(B[i].p, B[i].n), "a live block lies inside the provider's memory");
            for (int j = i + 1; j < nb; j++)
                if (B[j].live)
                    VF_ASSERT((B[i].p + B[i].n <= B[j].p) | (B[j].p + B[j].n <= B[i].p), "live blocks are disjoint");
        }
    for (int i = 0; i < nk; i++)
        if (K[i].live) {
            VF_ASSERT(K[i].flags == want_vis, "memory has the requested visibility");
            VF_ASSERT(K[i].prot == want_prot, "memory has the requested protection");
            VF_ASSERT(K[i].file == kpath_file && kpath_file, "memory is that of the file");
        }
}
/* bytes of two blocks are never one byte of the file */
static void check_files(void) {
    if (!VF_VIS || nb < 2 || VF_KIND == 1)
        return;
    uint64_t d = nd_u64(), e = nd_u64();
    for (int i = 0; i < nb; i++)
        for (int j = i + 1; j < nb; j++)
            if (B[i].live && B[j].live)
                VF_ASSERT((d >= B[i].n) | (e >= B[j].n) | (kpos(B[i].p + d) != kpos(B[j].p + e)), "blocks do not share bytes of the file");
}
static int pick_live(void) {
    int k[NB], n = 0;
    for (int i = 0; i < nb; i++)
        if (B[i].live)
            k[n++] = i;
    return n ? k[nd_pick(n)] : -1;
}
static void native_error_ok(bool failed) {
    const char *msg = NULL;
    int32_t e = 0;
    ops->get_last_native_error(prov, &msg, &e);
    VF_ASSERT(msg != NULL && msg[0], "the last native error has a description");
    VF_ASSERT(!failed || strcmp(msg, "success"), "a failure is described as one");
    (void)strlen(msg);
}
static void do_alloc(void) {
    static const uint64_t als[] = {VF_ALS};
    uint64_t al = als[nd_pick(NELEM(als))];
    size_t n = VF_MAXSZ == ~0ull ? nd_u64() : nd_range(0, VF_MAXSZ);
    if (nb == NB)
        VF_LIMIT("blocks");
    void *p = NULL;
    int ref = krefused + vf_ba_failed;
    bool fresh = true;
    for (int i = 0; i < nb; i++)
        fresh &= !B[i].live;
    kprotect = nk;
    umf_result_t r = ops->alloc(prov, n, al, &p);
    kprotect = 0;
    bool bad = al && ((al & (al - 1)) || (al % PAGE && PAGE % al));
    oomed |= vf_ba_failed > 0;
    if (r == UMF_RESULT_SUCCESS) {
        VF_REACH("alloc");
        VF_ASSERT(!bad, "alignments are powers of two that divide or are divided by the page size");
        VF_ASSERT(p != NULL, "success comes with a block");
        VF_ASSERT(n != 0, "a block has at least a byte");
        if (al)
            VF_ASSERT(((uintptr_t)p & (al - 1)) == 0, "the block has the requested alignment");
        VF_ASSERT(((uintptr_t)p & (PAGE - 1)) == 0, "the block starts a page");
        B[nb++] = (struct blk){(uintptr_t)p, n, true};
    } else {
        VF_REACH("refused");
        if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
            native_error_ok(true);
        if (VF_KIND == 0)
            VF_ASSERT((krefused + vf_ba_failed != ref) | bad | (n == 0) | (n > KLIM - 4 * al - (4ull << 20)), "allocations fail only for a reason");
        else if (fresh && !oomed) {
            uint64_t a = al > PAGE ? al : PAGE;
            VF_ASSERT(bad | (n == 0) | (vf_ba_failed > 0) | (n > total) | (((base & (a - 1)) != 0) & ((a > total) | (n > total - a))), "a block that fits is found");
        }
    }
}
static void do_free(int i) {
    int ref = vf_ba_failed;
    umf_result_t r = ops->free(prov, (void *)B[i].p, B[i].n);
    VF_ASSERT((r == UMF_RESULT_SUCCESS) | (ref != vf_ba_failed), "a block can be freed");
    B[i].live = false;
    oomed |= vf_ba_failed > 0;
    VF_REACH("free");
}
static void do_split(void) {
    int i = pick_live();
    if (i < 0)
        return;
    if (nb == NB)
        VF_LIMIT("blocks");
    size_t f = nd_u64();
    VF_ASSUME((f & (PAGE - 1)) == 0);
    VF_ASSUME((f > 0) & (f < B[i].n));
    int ref = vf_ba_failed;
    umf_result_t r = ops->ext.allocation_split(prov, (void *)B[i].p, B[i].n, f);
    if (r == UMF_RESULT_SUCCESS) {
        VF_REACH("split");
        B[nb++] = (struct blk){B[i].p + f, B[i].n - f, true};
        B[i].n = f;
    } else
        VF_ASSERT(ref != vf_ba_failed, "a proper split succeeds");
}
static void do_merge(void) {
    for (int i = 0; i < nb; i++)
        for (int j = 0; j < nb; j++)
            if (i != j && B[i].live && B[j].live && B[i].p + B[i].n == B[j].p) {
                bool contig = VF_KIND == 1 || !VF_VIS || kpos(B[j].p - 1) + 1 == kpos(B[j].p);
                int ref = vf_ba_failed;
                umf_result_t r = ops->ext.allocation_merge(prov, (void *)B[i].p, (void *)B[j].p, B[i].n + B[j].n);
                if (r == UMF_RESULT_SUCCESS) {
                    B[i].n += B[j].n;
                    B[j].live = false;
                    VF_REACH("merge");
                } else {
                    VF_ASSERT(!contig | (ref != vf_ba_failed), "adjacent blocks of one allocation can be merged");
                    VF_REACH("not merged");
                }
                return;
            }
}
static void do_ipc(void) {
    int i = pick_live();
    if (i < 0)
        return;
    if (ni == 4)
        VF_LIMIT("imports");
    if (VF_KIND == 1)
        return;
    size_t hs = 0;
    umf_result_t r = ops->ipc.get_ipc_handle_size(prov, &hs);
    if (!VF_VIS) {
        VF_ASSERT(r != UMF_RESULT_SUCCESS, "private memory cannot be shared");
        return;
    }
    VF_ASSERT(r == UMF_RESULT_SUCCESS && hs >= 32 && hs < 8192, "the handle has a size");
    hs = VF_FORK(hs);
    char *h = malloc(hs);
    VF_ASSUME(h != NULL);
    r = ops->ipc.get_ipc_handle(prov, (void *)B[i].p, B[i].n, h);
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "a live block can be exported");
    char *h2 = malloc(hs);
    VF_ASSUME(h2 != NULL);
    memcpy(h2, h, hs);
    void *p = NULL;
    int ref = krefused, fds = kfd_live;
    r = ops->ipc.open_ipc_handle(prov, h2, &p);
    VF_ASSERT(kfd_live == fds, "opening a handle leaves no file open");
    if (r == UMF_RESULT_SUCCESS) {
        uint64_t d = nd_u64();
        VF_ASSUME(d < B[i].n);
        VF_ASSERT(kcovered((uintptr_t)p, B[i].n), "the import is mapped entirely");
        VF_ASSERT(kpos((uintptr_t)p + d) == kpos(B[i].p + d), "every byte of the import is the block's byte");
        I[ni++] = (struct imp){(uintptr_t)p, B[i].n, true};
        VF_REACH("opened");
    } else {
        VF_ASSERT(ref != krefused, "a valid handle can be opened");
        if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
            native_error_ok(true);
    }
    VF_ASSERT(ops->ipc.put_ipc_handle(prov, h) == UMF_RESULT_SUCCESS, "a handle can be given back");
    free(h2);
    free(h);
}
static void do_close(void) {
    for (int i = 0; i < ni; i++)
        if (I[i].live) {
            VF_ASSERT(ops->ipc.close_ipc_handle(prov, (void *)I[i].p, I[i].n) == UMF_RESULT_SUCCESS, "an import can be closed");
            I[i].live = false;
            VF_ASSERT(!kcovered(I[i].p, 1), "a closed import is unmapped");
            VF_REACH("closed");
            return;
        }
}
static bool refused_params;
#ifndef VF_PARAMS
#define VF_PARAMS 0
#endif
#define BAD(e) VF_ASSERT((e) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "bad parameters are refused")
#define FIT(e) VF_ASSERT((e) == UMF_RESULT_SUCCESS, "parameters can be set")
static int bits(unsigned p) { return (p & UMF_PROTECTION_READ ? PROT_READ : 0) | (p & UMF_PROTECTION_WRITE ? PROT_WRITE : 0) | (p & UMF_PROTECTION_EXEC ? PROT_EXEC : 0); }
static void set_params(void *h) { /* any values, in any of two ways */
    unsigned p = nd_pick(17), v = nd_pick(4);
    void *x = NULL;
    p = p == 16 ? 1u << 31 : p;
    if (VF_KIND == 0) {
        BAD(umfFileMemoryProviderParamsCreate(NULL, kpath));
        BAD(umfFileMemoryProviderParamsCreate((umf_file_memory_provider_params_handle_t *)&x, NULL));
        BAD(umfFileMemoryProviderParamsCreate((umf_file_memory_provider_params_handle_t *)&x, ""));
        BAD(umfFileMemoryProviderParamsSetPath(NULL, kpath));
        BAD(umfFileMemoryProviderParamsSetPath(h, NULL));
        BAD(umfFileMemoryProviderParamsSetPath(h, ""));
        BAD(umfFileMemoryProviderParamsSetProtection(NULL, 2));
        BAD(umfFileMemoryProviderParamsSetVisibility(NULL, UMF_MEM_MAP_PRIVATE));
        if (nd_choice())
            FIT(umfFileMemoryProviderParamsSetProtection(h, p));
        else
            p = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
        if (nd_choice())
            FIT(umfFileMemoryProviderParamsSetVisibility(h, (umf_memory_visibility_t)v));
        else
            v = UMF_MEM_MAP_PRIVATE;
        refused_params = p > 15 || (v != UMF_MEM_MAP_PRIVATE && v != UMF_MEM_MAP_SHARED);
        want_vis = v == UMF_MEM_MAP_SHARED ? MAP_SHARED : MAP_PRIVATE;
        want_prot = bits(p);
    } else if (VF_KIND == 2) {
        BAD(umfDevDaxMemoryProviderParamsCreate(NULL, kpath, total));
        BAD(umfDevDaxMemoryProviderParamsCreate((umf_devdax_memory_provider_params_handle_t *)&x, NULL, total));
        BAD(umfDevDaxMemoryProviderParamsCreate((umf_devdax_memory_provider_params_handle_t *)&x, "", total));
        BAD(umfDevDaxMemoryProviderParamsSetDeviceDax(NULL, kpath, total));
        BAD(umfDevDaxMemoryProviderParamsSetDeviceDax(h, NULL, 1));
        BAD(umfDevDaxMemoryProviderParamsSetDeviceDax(h, "", 1));
        BAD(umfDevDaxMemoryProviderParamsSetProtection(NULL, 2));
        if (nd_choice()) {
            umf_result_t r = umfDevDaxMemoryProviderParamsSetProtection(h, p);
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (p > 0 && p < 16), "only known protections can be set");
            if (r == UMF_RESULT_SUCCESS)
                want_prot = bits(p);
        }
    } else {
        BAD(umfFixedMemoryProviderParamsCreate(NULL, (void *)base, total));
        BAD(umfFixedMemoryProviderParamsCreate((umf_fixed_memory_provider_params_handle_t *)&x, NULL, total));
        BAD(umfFixedMemoryProviderParamsCreate((umf_fixed_memory_provider_params_handle_t *)&x, (void *)base, 0));
        BAD(umfFixedMemoryProviderParamsSetMemory(NULL, (void *)base, total));
        BAD(umfFixedMemoryProviderParamsSetMemory(h, NULL, total));
        BAD(umfFixedMemoryProviderParamsSetMemory(h, (void *)4096, 0));
    }
    VF_ASSERT(x == NULL, "refused parameters do not exist");
    x = &x;
    BAD(ops->initialize(NULL, &x));
    VF_REACH("parameters");
}
static void drop_params(void *h) {
    VF_ASSERT((VF_KIND == 0 ? umfFileMemoryProviderParamsDestroy(h) : VF_KIND == 1 ? umfFixedMemoryProviderParamsDestroy(h) : umfDevDaxMemoryProviderParamsDestroy(h)) == UMF_RESULT_SUCCESS,
              "parameters can be destroyed");
}
static umf_result_t make(void **params) {
    kdax = VF_KIND == 2 ? 2 : VF_DAX;
    if (VF_KIND == 0) {
        umf_file_memory_provider_params_handle_t h = NULL;
        ops = umfFileMemoryProviderOps();
        if (VF_PARAMS && nd_choice()) {
            VF_ASSERT(umfFileMemoryProviderParamsCreate(&h, "/another file") == UMF_RESULT_SUCCESS, "parameters");
            FIT(umfFileMemoryProviderParamsSetPath(h, kpath));
        } else
            VF_ASSERT(umfFileMemoryProviderParamsCreate(&h, kpath) == UMF_RESULT_SUCCESS, "parameters");
        if (VF_PARAMS) {
            set_params(h);
            *params = h;
            return UMF_RESULT_SUCCESS;
        }
        umfFileMemoryProviderParamsSetVisibility(h, VF_VIS ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        umfFileMemoryProviderParamsSetProtection(h, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        *params = h;
    } else if (VF_KIND == 1) {
        umf_fixed_memory_provider_params_handle_t h = NULL;
        ops = umfFixedMemoryProviderOps();
        base = nd_range(1ull << 45, 1ull << 46);
        total = nd_range(1, 1ull << 40);
        if (VF_PARAMS && nd_choice()) {
            VF_ASSERT(umfFixedMemoryProviderParamsCreate(&h, (void *)(base + 1), total + 1) == UMF_RESULT_SUCCESS, "parameters");
            FIT(umfFixedMemoryProviderParamsSetMemory(h, (void *)base, total));
        } else
            VF_ASSERT(umfFixedMemoryProviderParamsCreate(&h, (void *)base, total) == UMF_RESULT_SUCCESS, "parameters");
        if (VF_PARAMS)
            set_params(h);
        *params = h;
    } else {
        umf_devdax_memory_provider_params_handle_t h = NULL;
        ops = umfDevDaxMemoryProviderOps();
        total = nd_range(1, 1ull << 11) << 21;
        kpath_file = nkfile++;
        kfsize[kpath_file] = 1ull << 33;
        if (VF_PARAMS && nd_choice()) {
            VF_ASSERT(umfDevDaxMemoryProviderParamsCreate(&h, "/another file", total + 5) == UMF_RESULT_SUCCESS, "parameters");
            FIT(umfDevDaxMemoryProviderParamsSetDeviceDax(h, kpath, total));
        } else
            VF_ASSERT(umfDevDaxMemoryProviderParamsCreate(&h, kpath, total) == UMF_RESULT_SUCCESS, "parameters");
        if (VF_PARAMS)
            set_params(h);
        else
            umfDevDaxMemoryProviderParamsSetProtection(h, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE);
        *params = h;
    }
    return UMF_RESULT_SUCCESS;
}
int VF_ENTRY(void) {
    void *params = NULL;
    long l0 = vf_ba_live;
    make(&params);
    long lb = vf_ba_live;
    int fds = kfd_live, lk = vf_locks_live;
    vf_ba_fail_budget = VF_OOM;
    kbudget = VF_KFAIL;
    vf_lock_init_may_fail = VF_LOCKFAIL;
    native_error_ok(false);
    umf_result_t r = ops->initialize(params, &prov);
    if (VF_PARAMS) { /* the provider has its own copy */
        drop_params(params);
        lb = l0;
    }
    VF_ASSERT(!refused_params || r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "unknown flags are refused");
    if (r != UMF_RESULT_SUCCESS) {
        VF_REACH("not created");
        VF_ASSERT((int)r > 0 && r <= UMF_RESULT_ERROR_UNKNOWN, "a failure has one of the documented codes");
        VF_ASSERT(krefused + vf_ba_failed > 0 || VF_LOCKFAIL || refused_params, "creation fails only for a reason");
    } else {
        oomed |= vf_ba_failed > 0;
        if (VF_KIND == 2)
            for (int i = 0; i < nk; i++)
                if (K[i].live)
                    base = K[i].a;
        size_t ps = 0, mp = 0;
        VF_ASSERT(ops->get_recommended_page_size(prov, 1, &ps) == UMF_RESULT_SUCCESS && ops->get_min_page_size(prov, NULL, &mp) == UMF_RESULT_SUCCESS, "page sizes");
        VF_ASSERT(ps == PAGE && mp <= PAGE && mp > 0 && PAGE % mp == 0, "the page size is the memory's");
        const char *nm = ops->get_name(prov);
        VF_ASSERT(nm && !strcmp(nm, VF_KIND == 0 ? "FILE" : VF_KIND == 1 ? "FIXED" : "DEVDAX"), "a provider has its name");
        check();
        static const char script[] = VF_OPS;
        for (unsigned k = 0; k < sizeof(script) - 1; k++) {
            int i;
            switch (script[k]) {
            case 'A':
                do_alloc();
                if (VF_ADJ && nb)
                    VF_ASSUME((B[nb - 1].n & 4095) == 0);
                if (VF_ADJ && nb == 3 && B[0].live && B[2].live)
                    VF_ASSUME(B[2].p + B[2].n == B[0].p);
                break;
            case 'F':
                if ((i = pick_live()) >= 0)
                    do_free(i);
                break;
            case 'S':
                do_split();
                break;
            case 'M':
                do_merge();
                break;
            case 'H':
                do_ipc();
                break;
            case 'C':
                do_close();
                break;
            case 'P':
                if ((i = pick_live()) >= 0) {
                    int ref = krefused;
                    r = ops->ext.purge_force(prov, (void *)B[i].p, B[i].n);
                    VF_ASSERT((r == UMF_RESULT_SUCCESS) == (ref == krefused), "purging fails only if the kernel refuses");
                    if (r != UMF_RESULT_SUCCESS)
                        native_error_ok(true);
                    VF_ASSERT(ops->ext.purge_lazy(prov, (void *)B[i].p, B[i].n) == UMF_RESULT_ERROR_NOT_SUPPORTED, "lazy purging is not supported");
                }
                break;
            case 'D':
                for (i = 0; i < nb; i++)
                    if (B[i].live)
                        do_free(i);
                break;
            }
            check();
            if (script[k] == 'A' || script[k] == 'M')
                check_files();
        }
        for (int i = 0; i < nb; i++)
            if (B[i].live)
                do_free(i);
        while (ni > 0 && I[ni - 1].live)
            do_close();
        ops->finalize(prov);
        VF_ASSERT(kcount() == 0, "nothing stays mapped");
    }
    VF_ASSERT(kcount() == 0, "a failure leaves nothing mapped");
    VF_ASSERT(vf_ba_live == lb, "no metadata is left behind");
    VF_ASSERT(kfd_live == fds, "no file is left open");
    VF_ASSERT(vf_maps_live == 0 && vf_locks_live == lk, "no map or lock is left behind");
    VF_REACH("end");
    return 0;
}
