/* O01-O04: the OS memory provider over a model of the kernel and of hwloc.
 * Histories VF_OPS: A alloc, F free any block, S split, M merge two adjacent
 * blocks, H export a block and import it (kept), C close an import, P purge,
 * R reset statistics, D free everything. */
#include "kernel_model.h"
#include "umf_hwloc.h"
#include "vf_models.h"
#include <stdlib.h>
#include <umf/memory_provider_ops.h>
#include <umf/providers/provider_os_memory.h>
#ifdef VF_SYMX
void libumfInit(void) {}
#endif
#ifndef VF_OPS
#define VF_OPS "AFA"
#endif
#ifndef VF_VIS
#define VF_VIS 0 /* 0 private 1 shared anonymous 2 shared named */
#endif
#ifndef VF_NUMA
#define VF_NUMA UMF_NUMA_MODE_DEFAULT
#endif
#ifndef VF_NODES
#define VF_NODES 0
#endif
#ifndef VF_ALS
#define VF_ALS 0, 64, 8192, (2ull << 20)
#endif
#ifndef VF_PARTS
#define VF_PARTS 0
#endif
#ifndef VF_MAXSZ
#define VF_MAXSZ (~0ull)
#endif
#ifndef VF_WEIGHTS
#define VF_WEIGHTS 0 /* number of explicit partitions */
#endif
#ifndef VF_MAXPG
#define VF_MAXPG 32
#endif
#ifndef VF_WMAX
#define VF_WMAX 3
#endif
#ifndef VF_PROTS
#define VF_PROTS 1
#endif
#ifndef VF_ADJ
#define VF_ADJ 0
#endif
#ifndef VF_KFAIL
#define VF_KFAIL 0
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_HWFAIL
#define VF_HWFAIL 0
#endif
#ifndef VF_LOCKFAIL
#define VF_LOCKFAIL 0
#endif
#define NELEM(a) (sizeof(a) / sizeof((a)[0]))
/* --- hwloc --- */
struct hwloc_bitmap_s {
    uint64_t bits;
};
#define ALLNODES 0xffull
static struct hwloc_bitmap_s all_nodes = {ALLNODES};
static int hwbudget, hwfailed, bitmaps, topos;
static bool hwfail(void) {
    if (hwbudget > 0 && nd_choice()) {
        hwbudget--;
        hwfailed++;
        return true;
    }
    return false;
}
int hwloc_topology_init(hwloc_topology_t *t) {
    if (hwfail())
        return -1;
    topos++;
    *t = malloc(1);
    return 0;
}
int hwloc_topology_load(hwloc_topology_t t) {
    (void)t;
    return hwfail() ? -1 : 0;
}
void hwloc_topology_destroy(hwloc_topology_t t) {
    topos--;
    free(t);
}
hwloc_const_nodeset_t hwloc_topology_get_complete_nodeset(hwloc_topology_t t) {
    (void)t;
    return &all_nodes;
}
hwloc_bitmap_t hwloc_bitmap_alloc(void) {
    if (hwfail())
        return NULL;
    bitmaps++;
    return calloc(1, sizeof(struct hwloc_bitmap_s));
}
hwloc_bitmap_t hwloc_bitmap_dup(hwloc_const_bitmap_t b) {
    hwloc_bitmap_t n = hwloc_bitmap_alloc();
    if (n)
        *n = *b;
    return n;
}
void hwloc_bitmap_free(hwloc_bitmap_t b) {
    if (!b)
        return;
    bitmaps--;
    free(b);
}
int hwloc_bitmap_set(hwloc_bitmap_t b, unsigned n) {
    if (hwfail())
        return -1;
    b->bits |= 1ull << n;
    return 0;
}
void hwloc_bitmap_zero(hwloc_bitmap_t b) { b->bits = 0; }
int hwloc_bitmap_or(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) {
    r->bits = a->bits | b->bits;
    return 0;
}
int hwloc_bitmap_list_snprintf(char *buf, size_t n, hwloc_const_bitmap_t b) {
    (void)b;
    VF_ASSERT(n > 0, "room for the text");
    buf[0] = 0;
    return 0;
}
#define NBIND 40
static struct bind {
    uintptr_t a, n;
    uint64_t bits;
    int policy, flags;
} BD[NBIND];
static int nbd, bindfails;
int hwloc_set_area_membind(hwloc_topology_t t, const void *addr, size_t len, hwloc_const_bitmap_t set, hwloc_membind_policy_t policy, int flags) {
    (void)t;
    VF_ASSERT((((uintptr_t)addr | len) & 4095) == 0 && len != 0, "bindings are made of whole pages");
    VF_ASSERT(kcovered((uintptr_t)addr, len), "only mapped memory is bound");
    if (nbd == NBIND)
        VF_LIMIT("bindings");
    BD[nbd++] = (struct bind){(uintptr_t)addr, len, set->bits, (int)policy, flags};
    if (hwbudget > 0 && nd_choice()) {
        hwbudget--;
        if (nd_choice()) {
            errno = ENOSYS;
        } else {
            errno = EXDEV;
            hwfailed++, bindfails++;
        }
        return -1;
    }
    return 0;
}
/* --- the provider --- */
#define NB 8
static struct blk {
    uintptr_t p;
    size_t n;
    bool live;
} B[NB];
static struct imp {
    uintptr_t p;
    size_t n;
    int of; /* block */
    bool live;
} I[4];
static int nb, ni;
static umf_memory_provider_ops_t *ops;
static void *prov;
static size_t st_alloc, st_peak;
static uint64_t bound_pages; /* of all earlier allocations */
static bool ipc_lost;
static unsigned nodes[8], weights[8], targets[8];
static size_t part;
static int prot_kind;

VF_QUIET static size_t stt(const char *name) {
    size_t v = 0;
    int b = vf_ba_fail_budget;
    vf_ba_fail_budget = 0;
    VF_ASSERT(ops->ctl(prov, 0, name, &v, CTL_QUERY_READ) == UMF_RESULT_SUCCESS, "statistics can be read");
    vf_ba_fail_budget = b;
    return v;
}
static void check(void) {
    for (int i = 0; i < nb; i++)
        if (B[i].live) {
            VF_ASSERT(kcovered(B[i].p, B[i].n), "a live block is mapped entirely");
            for (int j = i + 1; j < nb; j++)
                if (B[j].live)
                    VF_ASSERT((B[i].p + B[i].n <= B[j].p) | (B[j].p + B[j].n <= B[i].p), "live blocks are disjoint");
        }
    for (int i = 0; i < nk; i++)
        if (K[i].live) {
            VF_ASSERT(K[i].flags == (VF_VIS ? MAP_SHARED : MAP_PRIVATE), "memory has the requested visibility");
            VF_ASSERT(K[i].prot == (prot_kind == 0 ? (PROT_READ | PROT_WRITE) : prot_kind == 1 ? PROT_READ : PROT_EXEC | PROT_WRITE), "memory has the requested protection");
            VF_ASSERT((K[i].file != 0) == (VF_VIS != 0), "shared memory is backed by a file, private memory is not");
        }
    VF_ASSERT(stt("stats.allocated_memory") == st_alloc, "allocated_memory is the sum of the live blocks");
    VF_ASSERT(stt("stats.peak_memory") == st_peak, "peak_memory is the highest sum since the last reset");
}
static uint64_t up(uint64_t n) { return (n + 4095) & ~4095ull; }
/* every mapping starts and ends with a block or an import */
static void check_nothing_else(void) {
    for (int m = 0; m < nk; m++)
        if (K[m].live) {
            bool s = false, e = false;
            for (int i = 0; i < nb; i++)
                if (B[i].live) {
                    s |= B[i].p == K[m].a;
                    e |= B[i].p + up(B[i].n) == K[m].e;
                }
            for (int i = 0; i < ni; i++)
                if (I[i].live) {
                    s |= I[i].p == K[m].a;
                    e |= I[i].p + up(I[i].n) == K[m].e;
                }
            VF_ASSERT(s & e, "no mapping is left behind");
        }
}
static void check_binding(uintptr_t p, size_t size) {
    uint64_t un = 0;
    for (int i = 0; i < VF_NODES; i++)
        un |= 1ull << nodes[i];
    if (!VF_NODES)
        un = ALLNODES;
    size_t sz = up(size);
    if (VF_NUMA == UMF_NUMA_MODE_DEFAULT) {
        VF_ASSERT(nbd == 0, "no binding in the default mode");
        return;
    }
    VF_ASSERT(nbd > 0, "the memory is bound");
    /* the bindings tile the block */
    uintptr_t x = p;
    for (int i = 0; i < nbd; i++) {
        VF_ASSERT(BD[i].a == x, "bindings cover the block without gap or overlap");
        x += BD[i].n;
        bool strict = VF_NUMA == UMF_NUMA_MODE_BIND || VF_NUMA == UMF_NUMA_MODE_SPLIT || (VF_NUMA == UMF_NUMA_MODE_INTERLEAVE && part);
        int pol = VF_NUMA == UMF_NUMA_MODE_INTERLEAVE && !part ? HWLOC_MEMBIND_INTERLEAVE : HWLOC_MEMBIND_BIND;
        VF_ASSERT(BD[i].policy == pol, "the policy is the mode's");
        VF_ASSERT(BD[i].flags == (HWLOC_MEMBIND_BYNODESET | (strict ? HWLOC_MEMBIND_STRICT : 0)), "the binding is strict where the mode demands it");
    }
    VF_ASSERT(x == p + sz, "bindings cover the whole block");
    VF_REACH("bound");
    if (VF_NUMA == UMF_NUMA_MODE_SPLIT) {
        uint64_t S = 0, P = sz >> 12, c[9] = {0};
        unsigned np = VF_WEIGHTS ? VF_WEIGHTS : VF_NODES;
        for (unsigned i = 0; i < np; i++) {
            S += VF_WEIGHTS ? weights[i] : 1;
            c[i + 1] = S;
        }
        VF_ASSERT(P <= VF_MAXPG, "the harness looks at every page");
        for (uint64_t pg = 0; pg < P; pg++) {
            uint64_t want = 0, got = 0;
            for (unsigned i = 0; i < np; i++)
                /* partition i is the pages between P * c[i] / S and P * c[i + 1] / S */
                if ((pg * S < P * c[i + 1]) & ((pg + 1) * S > P * c[i]))
                    want |= 1ull << (VF_WEIGHTS ? targets[i] : nodes[i]);
            uint64_t o = 0; /* the bindings follow each other */
            for (int i = 0; i < nbd; o += BD[i++].n >> 12)
                if ((pg >= o) & (pg < o + (BD[i].n >> 12)))
                    got |= BD[i].bits;
            VF_ASSERT(got == want, "every page is bound to the nodes of exactly the partitions it overlaps");
        }
    } else if (VF_NUMA == UMF_NUMA_MODE_INTERLEAVE && part && VF_NODES > 1) {
        size_t tile = (part + 4095) & ~4095ull;
        unsigned k = 0, found = 0;
        for (unsigned i = 0; i < VF_NODES; i++)
            if (BD[0].bits == 1ull << nodes[i])
                k = i, found = 1;
        VF_ASSERT(found, "a part is bound to one node of the list");
        if (part % 4096 == 0)
            VF_ASSERT(k == (bound_pages * 4096 / part) % VF_NODES, "interleaving continues where the previous allocations ended");
        for (int i = 0; i < nbd; i++) {
            VF_ASSERT(BD[i].bits == 1ull << nodes[(k + i) % VF_NODES], "parts take the nodes of the list in turn");
            VF_ASSERT(i == nbd - 1 ? BD[i].n <= tile : BD[i].n == tile, "parts have the requested size");
        }
    } else {
        VF_ASSERT(nbd == 1, "one binding");
        VF_ASSERT(BD[0].bits == un, "the block is bound to the nodes of the list");
    }
    bound_pages += sz >> 12;
}
static int pick_live(void) {
    int k[NB], n = 0;
    for (int i = 0; i < nb; i++)
        if (B[i].live)
            k[n++] = i;
    return n ? k[nd_pick(n)] : -1;
}
static void native_error_ok(void) {
    const char *msg = NULL;
    int32_t e = 0;
    ops->get_last_native_error(prov, &msg, &e);
    VF_ASSERT(msg != NULL && msg[0], "an error has a description");
    VF_ASSERT(e > UMF_OS_RESULT_SUCCESS && e <= UMF_OS_RESULT_ERROR_TOPO_DISCOVERY_FAILED, "an error has a code");
    (void)strlen(msg);
}
static void do_alloc(void) {
    static const uint64_t als[] = {VF_ALS};
    uint64_t al = als[nd_pick(NELEM(als))];
    if (al == 7) { /* any invalid alignment: neither a multiple nor a divider of the page size */
        al = nd_u64();
        VF_ASSUME(al != 0);
        VF_ASSUME((al & (al - 1)) != 0);
        VF_ASSUME((al % 4096 != 0) & (al < 65536));
    }
    size_t n = VF_MAXSZ == ~0ull ? nd_u64() : nd_range(0, VF_MAXSZ);
#ifdef VF_NPAGES /* sizes of so many pages, and a byte less or more */
    n = (1 + nd_pick(VF_NPAGES)) * 4096 - 1 + nd_pick(3);
#endif
    if (nb == NB)
        VF_LIMIT("blocks");
    void *p = NULL;
    int before = kcount();
    kprotect = nk;
    int ref = krefused + hwfailed + vf_ba_failed;
    nbd = 0;
    int bf = bindfails;
    umf_result_t r = ops->alloc(prov, n, al, &p);
    kprotect = 0;
    if (r == UMF_RESULT_SUCCESS) {
        VF_REACH("alloc");
        VF_ASSERT((al == 0) || (al & (al - 1)) == 0 || al % 4096 == 0, "alignments are multiples or dividers of the page size");
        VF_ASSERT(p != NULL, "success comes with a block");
        VF_ASSERT(n != 0, "a block has at least a byte");
        if (al)
            VF_ASSERT((uintptr_t)p % al == 0, "the block has the requested alignment");
        VF_ASSERT(((uintptr_t)p & 4095) == 0, "the block starts a page");
        VF_ASSERT(kcount() == before + 1 && kexact((uintptr_t)p, (uintptr_t)p + up(n)), "exactly the block's pages are mapped");
        VF_ASSERT(bf == bindfails, "a block that could not be bound is not handed out");
        if (!hwfailed)
            check_binding((uintptr_t)p, n);
        B[nb++] = (struct blk){(uintptr_t)p, n, true};
        st_alloc += n;
        if (st_alloc > st_peak)
            st_peak = st_alloc;
        if (vf_ba_failed + krefused + hwfailed != ref)
            ipc_lost = true; /* its file offset could not be recorded */
    } else {
        VF_REACH("refused");
        VF_ASSERT(kcount() == before, "a failed allocation leaves nothing mapped");
        bool bad = al && (al & (al - 1)) && al % 4096;
        VF_ASSERT((krefused + hwfailed + vf_ba_failed != ref) | bad | (n == 0) | (n > KLIM - 4 * al - 4096), "allocations fail only for a reason");
        if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
            native_error_ok();
    }
}
static void do_free(int i) {
    umf_result_t r = ops->free(prov, (void *)B[i].p, B[i].n);
    VF_ASSERT(r == UMF_RESULT_SUCCESS, "a block can be freed");
    B[i].live = false;
    st_alloc -= B[i].n;
    VF_REACH("free");
}
static void do_split(void) {
    int i = pick_live();
    if (i < 0)
        return;
    if (nb == NB)
        VF_LIMIT("blocks");
    size_t f = nd_u64();
    VF_ASSUME((f & 4095) == 0);
    VF_ASSUME((f > 0) & (f < B[i].n));
    int ref = vf_ba_failed;
    umf_result_t r = ops->ext.allocation_split(prov, (void *)B[i].p, B[i].n, f);
    if (r == UMF_RESULT_SUCCESS) {
        VF_REACH("split");
        B[nb++] = (struct blk){B[i].p + f, B[i].n - f, true};
        B[i].n = f;
    } else
        VF_ASSERT(ref != vf_ba_failed || ipc_lost, "a proper split succeeds");
}
static void do_merge(void) {
    if (VF_ADJ && nb == 2 && B[0].live && B[1].live)
        VF_ASSUME(B[1].p + B[1].n == B[0].p);
    for (int i = 0; i < nb; i++)
        for (int j = 0; j < nb; j++)
            if (i != j && B[i].live && B[j].live && B[i].p + B[i].n == B[j].p) {
                int ref = vf_ba_failed;
                bool contig = !VF_VIS || kpos(B[j].p - 1) + 1 == kpos(B[j].p);
                umf_result_t r = ops->ext.allocation_merge(prov, (void *)B[i].p, (void *)B[j].p, B[i].n + B[j].n);
                if (r == UMF_RESULT_SUCCESS) {
                    B[i].n += B[j].n;
                    B[j].live = false;
                    VF_REACH("merge");
                } else {
                    VF_ASSERT(!contig | (ref != vf_ba_failed) | ipc_lost, "adjacent blocks of one allocation can be merged");
                    VF_REACH("not merged");
                }
                return;
            }
}
static void do_ipc(void) {
    int i = pick_live();
    if (i < 0)
        return;
    if (ni == 4)
        VF_LIMIT("imports");
    size_t hs = 0;
    umf_result_t r = ops->ipc.get_ipc_handle_size(prov, &hs);
    if (!VF_VIS) {
        VF_ASSERT(r != UMF_RESULT_SUCCESS, "private memory cannot be shared");
        return;
    }
    VF_ASSERT(r == UMF_RESULT_SUCCESS && hs >= 32 && hs < 400, "the handle has a size");
    hs = VF_FORK(hs);
    char *h = malloc(hs);
    VF_ASSUME(h != NULL);
    r = ops->ipc.get_ipc_handle(prov, (void *)B[i].p, B[i].n, h);
    VF_ASSERT((r == UMF_RESULT_SUCCESS) | ipc_lost, "a live block can be exported");
    if (r == UMF_RESULT_SUCCESS) {
        /* the consumer gets a copy of the bytes */
        char *h2 = malloc(hs);
        VF_ASSUME(h2 != NULL);
        memcpy(h2, h, hs);
        void *p = NULL;
        int ref = krefused, fds = kfd_live;
        r = ops->ipc.open_ipc_handle(prov, h2, &p);
        VF_ASSERT(kfd_live == fds, "opening a handle leaves no file open");
        if (r == UMF_RESULT_SUCCESS) {
            uint64_t d = nd_u64();
            VF_ASSUME(d < B[i].n);
            VF_ASSERT(kcovered((uintptr_t)p, B[i].n), "the import is mapped entirely");
            VF_ASSERT(kpos((uintptr_t)p + d) == kpos(B[i].p + d), "every byte of the import is the block's byte");
            I[ni++] = (struct imp){(uintptr_t)p, B[i].n, i, true};
            VF_REACH("opened");
        } else
            VF_ASSERT(ref != krefused, "a valid handle can be opened");
        VF_ASSERT(ops->ipc.put_ipc_handle(prov, h) == UMF_RESULT_SUCCESS, "a handle can be given back");
        free(h2);
    }
    free(h);
}
static void do_close(void) {
    for (int i = 0; i < ni; i++)
        if (I[i].live) {
            VF_ASSERT(ops->ipc.close_ipc_handle(prov, (void *)I[i].p, I[i].n) == UMF_RESULT_SUCCESS, "an import can be closed");
            I[i].live = false;
            VF_REACH("closed");
            return;
        }
}
/* bytes of two blocks are never one byte of the file */
static void check_files(void) {
    if (!VF_VIS || nb < 2)
        return;
    uint64_t d = nd_u64(), e = nd_u64();
    for (int i = 0; i < nb; i++)
        for (int j = i + 1; j < nb; j++)
            if (B[i].live && B[j].live)
                VF_ASSERT((d >= B[i].n) | (e >= B[j].n) | (kpos(B[i].p + d) != kpos(B[j].p + e)), "blocks do not share bytes of the file");
}
static umf_os_memory_provider_params_handle_t make_params(void) {
    umf_os_memory_provider_params_handle_t h = NULL;
    VF_ASSERT(umfOsMemoryProviderParamsCreate(&h) == UMF_RESULT_SUCCESS, "parameters");
    prot_kind = nd_pick(VF_PROTS);
    umfOsMemoryProviderParamsSetProtection(h, prot_kind == 0 ? UMF_PROTECTION_READ | UMF_PROTECTION_WRITE : UMF_PROTECTION_READ);
    umfOsMemoryProviderParamsSetVisibility(h, VF_VIS ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
    if (VF_VIS == 2)
        VF_ASSERT(umfOsMemoryProviderParamsSetShmName(h, "vf_shm") == UMF_RESULT_SUCCESS, "name");
    umfOsMemoryProviderParamsSetNumaMode(h, VF_NUMA);
    if (VF_NODES) {
        for (int i = 0; i < VF_NODES; i++)
            nodes[i] = (unsigned)(i * 3 % 8);
        VF_ASSERT(umfOsMemoryProviderParamsSetNumaList(h, nodes, VF_NODES) == UMF_RESULT_SUCCESS, "nodes");
    }
    static const size_t parts[] = {VF_PARTS};
    part = parts[nd_pick(NELEM(parts))];
    umfOsMemoryProviderParamsSetPartSize(h, part);
    if (VF_WEIGHTS) {
        umf_numa_split_partition_t pt[8];
        for (int i = 0; i < VF_WEIGHTS; i++) {
            pt[i].weight = weights[i] = 1 + nd_pick(VF_WMAX);
            pt[i].target = targets[i] = nodes[(i * 2 + 1) % (VF_NODES ? VF_NODES : 1)];
        }
        VF_ASSERT(umfOsMemoryProviderParamsSetPartitions(h, pt, VF_WEIGHTS) == UMF_RESULT_SUCCESS, "partitions");
    }
    return h;
}
int VF_ENTRY(void) {
    ops = umfOsMemoryProviderOps();
    ops->ctl(NULL, 0, "nothing", NULL, CTL_QUERY_READ); /* the tree of names is made once */
    umf_os_memory_provider_params_handle_t params = make_params();
    long base = vf_ba_live;
    int fds = kfd_live;
    vf_ba_fail_budget = VF_OOM;
    kbudget = VF_KFAIL;
    hwbudget = VF_HWFAIL;
    vf_lock_init_may_fail = VF_LOCKFAIL;
    int lk = vf_locks_live;
    umf_result_t r = ops->initialize(params, &prov);
    if (r != UMF_RESULT_SUCCESS) {
        VF_REACH("not created");
        VF_ASSERT((int)r > 0 && r <= UMF_RESULT_ERROR_UNKNOWN, "a failure has one of the documented codes");
        VF_ASSERT(krefused + hwfailed + vf_ba_failed > 0 || VF_LOCKFAIL, "creation fails only for a reason");
    } else {
        check();
        static const char script[] = VF_OPS;
        for (unsigned k = 0; k < sizeof(script) - 1; k++) {
            int i;
            switch (script[k]) {
            case 'A':
                do_alloc();
                break;
            case 'F':
                if ((i = pick_live()) >= 0)
                    do_free(i);
                break;
            case 'S':
                do_split();
                break;
            case 'M':
                do_merge();
                break;
            case 'H':
                do_ipc();
                break;
            case 'C':
                do_close();
                break;
            case 'R':
                VF_ASSERT(ops->ctl(prov, 0, "stats.reset", NULL, CTL_QUERY_RUNNABLE) == UMF_RESULT_SUCCESS, "the peak can be reset");
                st_peak = st_alloc;
                break;
            case 'P':
                if ((i = pick_live()) >= 0) {
                    int ref = krefused;
                    r = nd_choice() ? ops->ext.purge_lazy(prov, (void *)B[i].p, B[i].n) : ops->ext.purge_force(prov, (void *)B[i].p, B[i].n);
                    VF_ASSERT((r == UMF_RESULT_SUCCESS) == (ref == krefused), "purging fails only if the kernel refuses");
                    if (r != UMF_RESULT_SUCCESS)
                        native_error_ok();
                }
                break;
            }
            check();
            check_nothing_else();
            if (script[k] != 'F')
                check_files();
        }
        for (int i = 0; i < nb; i++)
            if (B[i].live)
                do_free(i);
        while (ni > 0 && I[ni - 1].live)
            do_close();
        ops->finalize(prov);
        for (int i = 0; i < ni; i++)
            if (I[i].live)
                return 0;
        VF_ASSERT(kcount() == 0, "nothing stays mapped");
    }
    VF_ASSERT(vf_ba_live == base, "no metadata is left behind");
    VF_ASSERT(bitmaps == 0 && topos == 0, "no topology object is left behind");
    VF_ASSERT(kfd_live == fds, "no file is left open");
    VF_ASSERT(vf_maps_live == 0 && vf_locks_live == lk, "no map or lock is left behind");
    umfOsMemoryProviderParamsDestroy(params);
    VF_REACH("end");
    return 0;
}
