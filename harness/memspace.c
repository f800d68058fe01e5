/* S01: memory spaces, targets and policies. VF_MODE 0: histories VF_OPS over up
 * to three spaces: N new, C from an array of ids, K clone, A add, R remove, I
 * filter by ids, P by capacity, U by the user's function, M add a target of
 * another type, D destroy. 1: the predefined spaces. 2: providers of a space. */
#include "umf_hwloc.h"
#include "base_alloc_global.h"
#include "memspace_internal.h"
#include "memtarget_internal.h"
#include "memtarget_ops.h"
#include "topology.h"
#include "vf.h"
#include "vf_models.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <umf.h>
#include <umf/memspace.h>
#include <umf/providers/provider_os_memory.h>
#ifndef VF_OPS
#define VF_OPS "CAR"
#endif
#ifndef VF_FAIL
#define VF_FAIL 0
#endif
#ifndef VF_NN
#define VF_NN 3
#endif
#define MAXT 8
void libumfInit(void) {}
/* --- hwloc --- */
struct hwloc_bitmap_s {
    unsigned node;
};
static struct hwloc_obj NODE[VF_NN];
static union hwloc_obj_attr_u ATTR[VF_NN];
static struct hwloc_bitmap_s CS[VF_NN];
static bool local[VF_NN][VF_NN], notopo;
static uint64_t val[2][VF_NN][VF_NN];
static int attrfail, hwfailed;
static int topo;
hwloc_topology_t umfGetTopology(void) {
    if (notopo)
        hwfailed++;
    return notopo ? NULL : (hwloc_topology_t)&topo;
}
int hwloc_get_type_depth(hwloc_topology_t t, hwloc_obj_type_t ty) {
    (void)t;
    VF_ASSERT(ty == HWLOC_OBJ_NUMANODE, "only NUMA nodes are asked for");
    return HWLOC_TYPE_DEPTH_NUMANODE;
}
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t t, int d) {
    (void)t, (void)d;
    return VF_NN;
}
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t t, int d, unsigned i) {
    (void)t, (void)d;
    return i < VF_NN ? &NODE[i] : NULL;
}
int hwloc_bitmap_intersects(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return local[a->node][b->node]; }
int hwloc_memattr_get_value(hwloc_topology_t t, hwloc_memattr_id_t a, hwloc_obj_t target, struct hwloc_location *i, unsigned long flags, hwloc_uint64_t *v) {
    (void)t, (void)flags;
    VF_ASSERT(i->type == HWLOC_LOCATION_TYPE_CPUSET, "the initiator is a set of cpus");
    VF_ASSERT(a == HWLOC_MEMATTR_ID_BANDWIDTH || a == HWLOC_MEMATTR_ID_LATENCY, "a known attribute");
    if (attrfail > 0 && nd_choice()) {
        attrfail--;
        hwfailed++;
        errno = EINVAL;
        return -1;
    }
    *v = val[a == HWLOC_MEMATTR_ID_LATENCY][i->location.cpuset->node][target - NODE];
    return 0;
}
static void machine(void) {
    for (unsigned i = 0; i < VF_NN; i++) {
        NODE[i].type = HWLOC_OBJ_NUMANODE;
        NODE[i].depth = HWLOC_TYPE_DEPTH_NUMANODE;
        NODE[i].logical_index = i;
        NODE[i].os_index = (unsigned)nd_range(0, 0xffffffffull);
        NODE[i].attr = &ATTR[i];
        NODE[i].cpuset = &CS[i];
        CS[i].node = i;
        ATTR[i].numanode.local_memory = nd_u64();
        NODE[i].next_cousin = i + 1 < VF_NN ? &NODE[i + 1] : NULL;
        for (unsigned j = 0; j < i; j++)
            VF_ASSUME(NODE[i].os_index != NODE[j].os_index);
    }
}
/* --- the provider's parameters, recorded --- */
static int params, created, pfail, pfailed;
static umf_numa_mode_t c_mode;
static unsigned c_ids[MAXT], c_nids, c_nparts;
static const umf_numa_split_partition_t *c_parts;
static size_t c_psize;
static umf_memory_provider_ops_t OPS;
static int P_, H_;
static umf_result_t pf(void) {
    if (pfail > 0 && nd_choice()) {
        pfail--;
        pfailed++;
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    return UMF_RESULT_SUCCESS;
}
umf_memory_provider_ops_t *umfOsMemoryProviderOps(void) { return &OPS; }
umf_result_t umfOsMemoryProviderParamsCreate(umf_os_memory_provider_params_handle_t *h) {
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS) {
        params++;
        *h = (umf_os_memory_provider_params_handle_t)&P_;
        c_mode = UMF_NUMA_MODE_DEFAULT;
        c_nids = c_nparts = 0;
        c_psize = 0;
    }
    return r;
}
umf_result_t umfOsMemoryProviderParamsDestroy(umf_os_memory_provider_params_handle_t h) {
    VF_ASSERT(h == (void *)&P_, "the parameters are destroyed");
    params--;
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfOsMemoryProviderParamsSetNumaMode(umf_os_memory_provider_params_handle_t h, umf_numa_mode_t m) {
    (void)h;
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS)
        c_mode = m;
    return r;
}
umf_result_t umfOsMemoryProviderParamsSetNumaList(umf_os_memory_provider_params_handle_t h, unsigned *l, unsigned n) {
    (void)h;
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS) {
        VF_ASSERT(n <= MAXT, "no more nodes than targets");
        for (unsigned i = 0; i < n; i++)
            c_ids[i] = l[i];
        c_nids = n;
    }
    return r;
}
umf_result_t umfOsMemoryProviderParamsSetPartitions(umf_os_memory_provider_params_handle_t h, umf_numa_split_partition_t *p, unsigned n) {
    (void)h;
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS)
        c_parts = p, c_nparts = n;
    return r;
}
umf_result_t umfOsMemoryProviderParamsSetPartSize(umf_os_memory_provider_params_handle_t h, size_t n) {
    (void)h;
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS)
        c_psize = n;
    return r;
}
umf_result_t umfMemoryProviderCreate(const umf_memory_provider_ops_t *ops, void *p, umf_memory_provider_handle_t *h) {
    VF_ASSERT(ops == &OPS && p == &P_ && params == 1, "an OS memory provider is made with its parameters");
    umf_result_t r = pf();
    if (r == UMF_RESULT_SUCCESS) {
        created++;
        *h = (umf_memory_provider_handle_t)&H_;
    }
    return r;
}
/* --- spaces --- */
#define UNUSED __attribute__((unused))
#define MAXS 4
static struct space {
    umf_memspace_handle_t h;
    unsigned id[MAXT];
    unsigned n;
} S[MAXS];
static unsigned ns;
static void same(umf_const_memspace_handle_t h, const unsigned *id, unsigned n) {
    VF_ASSERT(umfMemspaceMemtargetNum(h) == n, "a memory space has exactly its targets");
    for (unsigned i = 0; i < n; i++) {
        unsigned x = ~id[i];
        umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(h, i);
        VF_ASSERT(t != NULL, "every target can be got");
        VF_ASSERT(umfMemtargetGetId(t, &x) == UMF_RESULT_SUCCESS && x == id[i], "the targets keep their identity and order");
    }
    VF_ASSERT(umfMemspaceMemtargetGet(h, n) == NULL, "there is no further target");
}
static void all(void) {
    for (unsigned i = 0; i < ns; i++)
        if (S[i].h)
            same(S[i].h, S[i].id, S[i].n);
}
static bool has(const unsigned *id, unsigned n, unsigned x) {
    bool r = false;
    for (unsigned i = 0; i < n; i++)
        r |= id[i] == x;
    return r;
}
static int ufn, ures[MAXT];
static umf_const_memspace_handle_t uspace;
static int ufilter(umf_const_memspace_handle_t m, umf_const_memtarget_handle_t t, void *args) {
    VF_ASSERT(m == uspace && args == &ufn, "the filter gets its space and argument");
    VF_ASSERT(ufn < MAXT && t == umfMemspaceMemtargetGet(m, (unsigned)ufn), "the filter is asked about each target once");
    ures[ufn] = (int)nd_pick(3) - 1;
    return ures[ufn++];
}
static int ofin, oini;
static umf_result_t o_init(void *p, void **r) {
    *r = p;
    oini++;
    return UMF_RESULT_SUCCESS;
}
static void o_fini(void *p) { (void)p, ofin++; }
static umf_result_t o_clone(void *p, void **r) {
    *r = p;
    oini++;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t o_type(void *p, umf_memtarget_type_t *t) {
    (void)p;
    *t = (umf_memtarget_type_t)7;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t o_cmp(void *a, void *b, int *r) {
    *r = a != b;
    return UMF_RESULT_SUCCESS;
}
static umf_memtarget_ops_t O = {.version = UMF_MEMTARGET_OPS_VERSION_CURRENT, .initialize = o_init, .finalize = o_fini, .clone = o_clone, .get_type = o_type, .compare = o_cmp};
#define OOM(r) VF_ASSERT((r) == UMF_RESULT_SUCCESS || ((r) == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && vf_ba_failed > failed), "a memory space operation fails for a reason only")
static struct space *some(void) {
    VF_ASSUME(ns > 0);
    struct space *s = &S[ns > 1 ? nd_pick(ns) : 0];
    VF_ASSUME(s->h != NULL);
    return s;
}
#if VF_MODE == 0
static void step(char c) {
    int failed = vf_ba_failed;
    umf_result_t r;
    switch (c) {
    case 'N': {
        struct space *s = &S[ns++];
        r = umfMemspaceNew(&s->h);
        OOM(r);
        if (r != UMF_RESULT_SUCCESS)
            ns--, s->h = NULL;
        break;
    }
    case 'C': {
        struct space *s = &S[ns++];
        unsigned id[2] = {(unsigned)nd_range(0, 0xffffffffull), (unsigned)nd_range(0, 0xffffffffull)};
        VF_ASSUME(id[0] != id[1]);
        r = umfMemspaceCreateFromNumaArray(id, 2, &s->h);
        OOM(r);
        if (r == UMF_RESULT_SUCCESS)
            memcpy(s->id, id, sizeof(id)), s->n = 2;
        else
            ns--, s->h = NULL;
        break;
    }
    case 'K': {
        struct space *o = some(), *s = &S[ns++];
        r = umfMemspaceClone(o->h, &s->h);
        OOM(r);
        if (r == UMF_RESULT_SUCCESS)
            memcpy(s->id, o->id, sizeof(o->id)), s->n = o->n;
        else
            ns--, s->h = NULL;
        break;
    }
    case 'A':
    case 'R': {
        struct space *s = some();
        unsigned id = (unsigned)nd_range(0, 0xffffffffull);
        umf_memspace_handle_t from = NULL;
        bool own = c == 'R' && s->n > 0 && nd_choice(); /* a target of the space itself */
        umf_const_memtarget_handle_t t;
        if (own) {
            unsigned i = nd_pick(s->n);
            t = umfMemspaceMemtargetGet(s->h, i);
            id = s->id[i];
        } else {
            r = umfMemspaceCreateFromNumaArray(&id, 1, &from);
            OOM(r);
            if (r != UMF_RESULT_SUCCESS)
                break;
            t = umfMemspaceMemtargetGet(from, 0);
        }
        bool in = has(s->id, s->n, id);
        failed = vf_ba_failed;
        if (c == 'A') {
            r = umfMemspaceMemtargetAdd(s->h, t);
            if (in)
                VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "a target is in a memory space once");
            else
                OOM(r);
            if (r == UMF_RESULT_SUCCESS) {
                s->id[s->n++] = id;
                VF_REACH("added");
            }
        } else {
            r = umfMemspaceMemtargetRemove(s->h, t);
            VF_ASSERT(in ? r == UMF_RESULT_SUCCESS || vf_ba_failed > failed : r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "exactly the targets of a memory space can be removed");
            if (r == UMF_RESULT_SUCCESS) {
                unsigned k = 0;
                for (unsigned i = 0; i < s->n; i++)
                    if (s->id[i] != id)
                        s->id[k++] = s->id[i];
                s->n = k;
                VF_REACH("removed");
            }
        }
        if (from)
            umfMemspaceDestroy(from);
        break;
    }
    case 'I': {
        struct space *s = some();
        unsigned id[2] = {(unsigned)nd_range(0, 0xffffffffull), (unsigned)nd_range(0, 0xffffffffull)};
        r = umfMemspaceFilterById(s->h, id, 2);
        OOM(r);
        if (r == UMF_RESULT_SUCCESS) {
            unsigned k = 0;
            for (unsigned i = 0; i < s->n; i++)
                if (has(id, 2, s->id[i]))
                    s->id[k++] = s->id[i];
            s->n = k;
            VF_REACH("filtered");
        }
        break;
    }
    case 'P': {
        struct space *s = some();
        int64_t cap = (int64_t)nd_u64();
        r = umfMemspaceFilterByCapacity(s->h, cap);
        bool ok = true;
        unsigned k = 0, id[MAXT];
        for (unsigned i = 0; i < s->n; i++) {
            bool found = false;
            for (unsigned j = 0; j < VF_NN; j++)
                if (NODE[j].os_index == s->id[i]) {
                    found = true;
                    if (ATTR[j].numanode.local_memory >= (uint64_t)cap)
                        id[k++] = s->id[i];
                }
            ok &= found;
        }
        if (cap < 0)
            VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "a negative capacity is refused");
        else if (!ok)
            VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT || vf_ba_failed > failed, "a node that does not exist has no capacity");
        else
            OOM(r);
        if (r == UMF_RESULT_SUCCESS) {
            memcpy(s->id, id, k * sizeof(id[0]));
            s->n = k;
            VF_REACH("filtered");
        }
        break;
    }
    case 'U': {
        struct space *s = some();
        ufn = 0;
        uspace = s->h;
        r = umfMemspaceUserFilter(s->h, ufilter, &ufn);
        bool bad = false;
        unsigned k = 0, id[MAXT];
        for (int i = 0; i < ufn; i++) {
            bad |= ures[i] < 0;
            if (ures[i] > 0)
                id[k++] = s->id[i];
        }
        if (bad)
            VF_ASSERT(r == UMF_RESULT_ERROR_USER_SPECIFIC, "a failed filter fails the operation");
        else
            OOM(r);
        if (r == UMF_RESULT_SUCCESS) {
            VF_ASSERT((unsigned)ufn == s->n, "the filter is asked about each target once");
            memcpy(s->id, id, k * sizeof(id[0]));
            s->n = k;
            VF_REACH("filtered");
        }
        break;
    }
    case 'M': {
        struct space *s = some();
        umf_memtarget_handle_t t = NULL;
        r = umfMemtargetCreate(&O, &ofin, &t);
        OOM(r);
        if (r != UMF_RESULT_SUCCESS)
            break;
        failed = vf_ba_failed;
        r = umfMemspaceMemtargetAdd(s->h, t);
        if (s->n)
            VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "a memory space has targets of one type only");
        else {
            OOM(r);
            if (r == UMF_RESULT_SUCCESS) {
                r = umfMemspaceMemtargetRemove(s->h, t);
                VF_ASSERT(r == UMF_RESULT_SUCCESS || vf_ba_failed > failed, "exactly the targets of a memory space can be removed");
            }
        }
        umfMemtargetDestroy(t);
        break;
    }
    case 'D': {
        struct space *s = some();
        umfMemspaceDestroy(s->h);
        s->h = NULL;
        break;
    }
    }
    all();
}
void VF_ENTRY(void) {
    static const char script[] = VF_OPS;
    machine();
    vf_ba_fail_budget = VF_FAIL;
    for (unsigned i = 0; i < sizeof(script) - 1; i++)
        step(script[i]);
    for (unsigned i = 0; i < ns; i++)
        if (S[i].h)
            umfMemspaceDestroy(S[i].h);
    VF_ASSERT(oini == ofin, "every target is finalized once");
    VF_ASSERT(vf_ba_live == 0, "memory spaces leave nothing behind");
    if (vf_ba_failed)
        VF_REACH("oom");
    VF_REACH("end");
}
#elif VF_MODE == 1
static unsigned ids[VF_NN];
static unsigned members(umf_const_memspace_handle_t h, unsigned *m) {
    unsigned n = (unsigned)umfMemspaceMemtargetNum(h);
    VF_ASSERT(n >= 1 && n <= VF_NN, "a predefined memory space has targets");
    for (unsigned i = 0; i < n; i++) {
        unsigned id = 0;
        VF_ASSERT(umfMemtargetGetId(umfMemspaceMemtargetGet(h, i), &id) == UMF_RESULT_SUCCESS, "a target has an id");
        m[i] = VF_NN;
        for (unsigned j = 0; j < VF_NN; j++)
            if (NODE[j].os_index == id)
                m[i] = j;
        VF_ASSERT(m[i] < VF_NN, "a predefined memory space has nodes of the machine");
        for (unsigned j = 0; j < i; j++)
            VF_ASSERT(m[j] != m[i], "a node is in a predefined memory space once");
    }
    return n;
}
static uint64_t eff(int lat, unsigned i, unsigned j) { return local[i][j] ? val[lat][i][j] : lat ? UINT64_MAX : 0; }
static bool best(int lat, unsigned i, unsigned j) {
    for (unsigned k = 0; k < VF_NN; k++)
        if (lat ? eff(1, i, k) < eff(1, i, j) : eff(0, i, k) > eff(0, i, j))
            return false;
    return true;
}
static void check(int lat, umf_const_memspace_handle_t h) {
    unsigned m[VF_NN], n = members(h, m);
    for (unsigned a = 0; a < n; a++) {
        bool one = false;
        for (unsigned i = 0; i < VF_NN; i++)
            one |= best(lat, i, m[a]);
        VF_ASSERT(one, lat ? "every target has the lowest latency for some node" : "every target has the highest bandwidth for some node");
    }
    for (unsigned i = 0; i < VF_NN; i++) {
        bool one = false;
        for (unsigned a = 0; a < n; a++)
            one |= best(lat, i, m[a]);
        VF_ASSERT(one, lat ? "every node has its target of lowest latency" : "every node has its target of highest bandwidth");
    }
}
void VF_ENTRY(void) {
    machine();
    for (unsigned i = 0; i < VF_NN; i++)
        for (unsigned j = 0; j < VF_NN; j++) {
            local[i][j] = i == j || nd_choice();
            val[0][i][j] = nd_u64();
            val[1][i][j] = nd_u64();
        }
    attrfail = VF_FAIL;
#ifdef VF_OOM
    vf_ba_fail_budget = VF_OOM;
#endif
    for (unsigned i = 0; i < VF_NN; i++)
        ids[i] = NODE[i].os_index;
    umf_const_memspace_handle_t h;
    for (int round = 0; round < 2; round++) {
        switch (VF_WHICH) {
        case 0:
            h = umfMemspaceHostAllGet();
            VF_ASSERT(h != NULL || vf_ba_failed, "the memory space of all nodes exists");
            if (h)
                same(h, ids, VF_NN);
            break;
        case 1:
            h = umfMemspaceHighestCapacityGet();
            VF_ASSERT(h != NULL || vf_ba_failed, "the memory space of highest capacity exists");
            if (h) {
                unsigned m[VF_NN];
                VF_ASSERT(members(h, m) == VF_NN, "all nodes are in the memory space of highest capacity");
                for (unsigned i = 0; i + 1 < VF_NN; i++)
                    VF_ASSERT(ATTR[m[i]].numanode.local_memory >= ATTR[m[i + 1]].numanode.local_memory, "the node of highest capacity comes first");
            }
            break;
        default:
            h = VF_WHICH == 2 ? umfMemspaceHighestBandwidthGet() : umfMemspaceLowestLatencyGet();
            VF_ASSERT(h != NULL || vf_ba_failed || hwfailed, "the memory space exists");
            if (h)
                check(VF_WHICH == 3, h);
        }
        if (h)
            VF_REACH("space");
        else
            VF_REACH("no space");
        VF_ASSERT(h == (VF_WHICH == 0 ? umfMemspaceHostAllGet() : VF_WHICH == 1 ? umfMemspaceHighestCapacityGet() : VF_WHICH == 2 ? umfMemspaceHighestBandwidthGet() : umfMemspaceLowestLatencyGet()),
                  "a predefined memory space stays the same");
        umfMemspaceHostAllDestroy();
        umfMemspaceHighestCapacityDestroy();
        umfMemspaceHighestBandwidthDestroy();
        umfMemspaceLowestLatencyDestroy();
        VF_ASSERT(vf_ba_live == 0, "memory spaces leave nothing behind");
        if (vf_ba_failed || hwfailed)
            break;
    }
    VF_REACH("end");
}
#else
void VF_ENTRY(void) {
    machine();
    umf_const_memspace_handle_t h;
    umf_memspace_handle_t own = NULL;
    umf_mempolicy_handle_t pol = NULL;
    unsigned id[2] = {(unsigned)nd_range(0, 0xffffffffull), (unsigned)nd_range(0, 0xffffffffull)}, n = 2;
    unsigned which = nd_pick(3);
    int mode = (int)nd_pick(5) - 1;
    size_t psize = nd_u64();
    umf_mempolicy_split_partition_t parts[2] = {{1, 0}, {2, 1}};
    unsigned nparts = 0;
    if (which == 0) {
        umf_result_t r = umfMemspaceCreateFromNumaArray(id, 2, &own);
        VF_ASSERT(r == UMF_RESULT_SUCCESS, "a memory space of two nodes");
        h = own;
    } else
        h = which == 1 ? umfMemspaceHostAllGet() : umfMemspaceHighestCapacityGet();
    umfMemspaceHostAllGet();
    umfMemspaceHighestCapacityGet(); /* what the predefined spaces allocate is not at issue here */
    long base = vf_ba_live;
    vf_ba_fail_budget = VF_FAIL;
    pfail = VF_FAIL;
    if (mode >= 0) {
        umf_result_t r = umfMempolicyCreate((umf_mempolicy_membind_t)mode, &pol);
        VF_ASSERT(r == UMF_RESULT_SUCCESS || vf_ba_failed, "a policy is made");
        if (r != UMF_RESULT_SUCCESS) {
            VF_ASSERT(vf_ba_live == base, "nothing is left behind");
            VF_REACH("failed");
            return;
        }
        if (nd_choice()) {
            r = umfMempolicySetInterleavePartSize(pol, psize);
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (mode == UMF_MEMPOLICY_INTERLEAVE), "only interleaving has a part size");
            r = umfMempolicySetCustomSplitPartitions(pol, parts, 2);
            VF_ASSERT((r == UMF_RESULT_SUCCESS) == (mode == UMF_MEMPOLICY_SPLIT), "only splitting has partitions");
            nparts = 2;
        } else
            psize = 0;
    }
    umf_memory_provider_handle_t p = NULL;
    umf_result_t r = umfMemoryProviderCreateFromMemspace(h, pol, &p);
    VF_ASSERT((r == UMF_RESULT_SUCCESS) == (vf_ba_failed + pfailed == 0), "a provider is made unless something fails");
    VF_ASSERT(params == 0 && vf_ba_live - base == (pol != NULL), "nothing is left behind");
    VF_ASSERT(created == (r == UMF_RESULT_SUCCESS) && (p != NULL) == (r == UMF_RESULT_SUCCESS), "the provider made is handed out");
    if (r == UMF_RESULT_SUCCESS) {
        if (which == 1 && !pol) {
            VF_ASSERT(c_mode == UMF_NUMA_MODE_DEFAULT && c_nids == 0, "all of the host's memory needs no binding");
        } else {
            if (which)
                n = which == 1 ? VF_NN : 1;
            umf_numa_mode_t m = !pol                         ? UMF_NUMA_MODE_BIND
                                : mode == UMF_MEMPOLICY_INTERLEAVE ? UMF_NUMA_MODE_INTERLEAVE
                                : mode == UMF_MEMPOLICY_SPLIT      ? UMF_NUMA_MODE_SPLIT
                                : mode == UMF_MEMPOLICY_BIND       ? UMF_NUMA_MODE_BIND
                                                                   : UMF_NUMA_MODE_PREFERRED;
            VF_ASSERT(c_mode == m, "the provider binds as the policy says");
            VF_ASSERT(c_nids == n, "the provider binds to the nodes of the memory space");
            for (unsigned i = 0; i < n; i++) {
                unsigned x;
                VF_ASSERT(umfMemtargetGetId(umfMemspaceMemtargetGet(h, i), &x) == UMF_RESULT_SUCCESS && x == c_ids[i], "the provider binds to the nodes of the memory space");
            }
            VF_ASSERT(c_psize == (mode == UMF_MEMPOLICY_INTERLEAVE ? psize : 0), "the part size of the policy");
            VF_ASSERT(c_nparts == (mode == UMF_MEMPOLICY_SPLIT ? nparts : 0), "the partitions of the policy");
            if (c_nparts)
                VF_ASSERT((void *)c_parts == (void *)parts, "the partitions of the policy");
        }
        VF_REACH("provider");
    } else
        VF_REACH("failed");
    umf_memory_pool_handle_t pool = NULL;
    VF_ASSERT(umfPoolCreateFromMemspace(h, pol, &pool) != UMF_RESULT_SUCCESS && !pool, "pools cannot be made of NUMA memory spaces yet");
    if (pol)
        umfMempolicyDestroy(pol);
    if (own)
        umfMemspaceDestroy(own);
    umfMemspaceHostAllDestroy();
    umfMemspaceHighestCapacityDestroy();
    VF_ASSERT(vf_ba_live == 0, "nothing is left behind");
    VF_REACH("end");
}
#endif
