/* The tracking provider over VF_NL (three) nested pools.  Addresses and sizes are
 * symbolic; nothing is dereferenced. */
#include "ipc_cache.h"
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#include "provider_tracking.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
#include <umf/memory_provider_ops.h>
umf_memory_tracker_handle_t TRACKER;
int libumfInit(void) { return 0; }
void *umf_ipc_unused;
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_UPFAIL
#define VF_UPFAIL 0
#endif
#ifndef VF_NL
#define VF_NL 3
#endif
#define NSEG 12
#define TOP (1ull << 46)
struct seg {
    uintptr_t b;
    size_t n;
    int lvl;
    int parent;
    bool live;
};
static struct seg S[NSEG];
static int ns, upfail;
static umf_memory_pool_t POOL[VF_NL];
static umf_memory_provider_handle_t UP[VF_NL], TP[VF_NL];
static char privs[VF_NL];
static int lvl_of(void *p) { return (int)((char *)p - privs); }
static bool kids(int i) {
    for (int j = 0; j < ns; j++)
        if (S[j].live && S[j].parent == i)
            return true;
    return false;
}
/* the upstream's own book of what it handed out */
static struct seg U[16];
static int nu;
static bool refuse(void) {
    if (upfail > 0 && nd_choice()) {
        upfail--;
        return true;
    }
    return false;
}
static int last_parent;
static umf_result_t up_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void up_fini(void *priv) { (void)priv; }
static umf_result_t up_alloc(void *priv, size_t size, size_t al, void **ptr) {
    (void)al;
    int l = lvl_of(priv);
    if (refuse())
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    uintptr_t b;
    if (l == 0) {
        b = nd_range(4096, TOP);
        VF_ASSUME(b + size <= TOP);
    } else {
        struct seg *p = &S[last_parent];
        b = nd_range(4096, TOP);
        VF_ASSUME((b >= p->b) & (b + size <= p->b + p->n));
    }
    for (int i = 0; i < nu; i++)
        if (U[i].live && U[i].lvl == l)
            VF_ASSUME((b + size <= U[i].b) | (U[i].b + U[i].n <= b));
    if (nu == 16)
        VF_LIMIT("upstream blocks");
    U[nu++] = (struct seg){b, size, l, -1, true};
    *ptr = (void *)b;
    return UMF_RESULT_SUCCESS;
}
static int upfind(int l, void *ptr, size_t size) {
    for (int i = 0; i < nu; i++)
        if (U[i].live && U[i].lvl == l && U[i].b == (uintptr_t)ptr) {
            VF_ASSERT(U[i].n == size, "the upstream sees the size it handed out");
            return i;
        }
    VF_ASSERT(0, "the upstream sees only blocks it handed out");
    return 0;
}
static umf_result_t up_free(void *priv, void *ptr, size_t size) {
    int i = upfind(lvl_of(priv), ptr, size);
    if (refuse())
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    U[i].live = false;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_split(void *priv, void *ptr, size_t total, size_t first) {
    int i = upfind(lvl_of(priv), ptr, total);
    if (refuse())
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    U[nu++] = (struct seg){U[i].b + first, total - first, U[i].lvl, -1, true};
    U[i].n = first;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_merge(void *priv, void *lo, void *hi, size_t total) {
    int l = lvl_of(priv);
    int i = -1, j = -1;
    for (int k = 0; k < nu; k++)
        if (U[k].live && U[k].lvl == l) {
            if (U[k].b == (uintptr_t)lo)
                i = k;
            if (U[k].b == (uintptr_t)hi)
                j = k;
        }
    VF_ASSERT(i >= 0 && j >= 0, "the upstream sees only blocks it handed out");
    if (U[i].b + U[i].n != U[j].b || U[i].n + U[j].n != total || refuse())
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    U[i].n = total;
    U[j].live = false;
    return UMF_RESULT_SUCCESS;
}
static void up_err(void *p, const char **m, int32_t *e) { (void)p, (void)m, (void)e; }
static umf_result_t up_page(void *p, size_t s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_page2(void *p, void *s, size_t *o) {
    (void)p, (void)s;
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *up_name(void *p) {
    (void)p;
    return "up";
}
static int pick(int lvl, bool leaf) {
    int c[NSEG], n = 0;
    for (int i = 0; i < ns; i++)
        if (S[i].live && (lvl < 0 || S[i].lvl == lvl) && (!leaf || !kids(i)))
            c[n++] = i;
    return n ? c[nd_pick(n)] : -1;
}
static void query(void) {
    uintptr_t q = nd_range(1, TOP + 4096);
    umf_alloc_info_t inf = {0};
    umf_result_t r = umfMemoryTrackerGetAllocInfo((void *)q, &inf);
    bool none = true, ok = false;
    /* the deepest live segment that contains q */
    for (int l = VF_NL - 1; l >= 0; l--)
        for (int i = 0; i < ns; i++)
            if (S[i].live && S[i].lvl == l && q - S[i].b < S[i].n) {
                if (none)
                    ok = (inf.base == (void *)S[i].b) &
                         (inf.baseSize == S[i].n) & (inf.pool == &POOL[l]);
                none = false;
            }
    if (none)
        VF_ASSERT(r == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                  "an address outside every live block has no owner");
    else
        VF_ASSERT((r == UMF_RESULT_SUCCESS) & ok,
                  "an address maps to the innermost live block that holds it");
    VF_ASSERT(umfMemoryTrackerGetPool((void *)q) ==
                  (none ? NULL : (void *)inf.pool),
              "the owning pool of an address");
}
static bool books(void) { /* upstream and user agree */
    int a = 0, b = 0;
    for (int i = 0; i < ns; i++)
        a += S[i].live;
    for (int i = 0; i < nu; i++)
        b += U[i].live;
    return a == b;
}
static void alloc(int l) {
    if (l > 0 && (last_parent = pick(l - 1, false)) < 0)
        return;
    size_t n = nd_range(1, 1ull << 40);
    void *p = NULL;
    int f0 = vf_ba_failed, u0 = upfail;
    if (umfMemoryProviderAlloc(TP[l], n, 0, &p) == UMF_RESULT_SUCCESS) {
        S[ns++] = (struct seg){(uintptr_t)p, n, l, l ? last_parent : -1, true};
        VF_ASSERT(U[nu - 1].live && U[nu - 1].b == (uintptr_t)p,
                  "the upstream's block is handed out");
        VF_REACH("alloc");
    } else {
        VF_ASSERT(p == NULL, "a refused allocation yields no pointer");
        VF_ASSERT((f0 != vf_ba_failed) | (u0 != upfail) | (l >= 8),
                  "an allocation is refused only when something failed or "
                  "eight blocks enclose it");
        VF_REACH("refused");
    }
}
static void dofree(int i) {
    int f0 = vf_ba_failed, u0 = upfail;
    umf_result_t r =
        umfMemoryProviderFree(TP[S[i].lvl], (void *)S[i].b, S[i].n);
    if (r == UMF_RESULT_SUCCESS) {
        S[i].live = false;
        VF_REACH("free");
    } else
        VF_ASSERT(u0 != upfail, "a free fails only if the upstream's failed");
    /* no memory to track a block whose release failed again */
    if (r != UMF_RESULT_SUCCESS && f0 != vf_ba_failed)
        VF_ASSUME(0);
}
static void op(char o) {
    int i, j;
    switch (o) {
    case '3': case '4': case '5': case '6': case '7': case '8': case '9':
        alloc(o - '0');
        break;
    case 'A':
        alloc(0);
        break;
    case 'N':
        alloc(1);
        break;
    case 'O':
        alloc(2);
        break;
    case 'F':
        if ((i = pick(-1, true)) >= 0)
            dofree(i);
        break;
    case 'S': {
        if ((i = pick(-1, true)) < 0)
            break;
        size_t total = nd_bool() ? S[i].n : nd_range(1, 1ull << 41);
        size_t first = nd_range(0, 1ull << 41);
        int f0 = vf_ba_failed, u0 = upfail;
        umf_result_t r = umfMemoryProviderAllocationSplit(
            TP[S[i].lvl], (void *)S[i].b, total, first);
        bool good = (total == S[i].n) & (first > 0) & (first < total);
        if (r == UMF_RESULT_SUCCESS) {
            VF_ASSERT(good, "only a proper split is accepted");
            S[ns++] = (struct seg){S[i].b + first, total - first, S[i].lvl,
                                   S[i].parent, true};
            S[i].n = first;
            VF_REACH("split");
        } else
            VF_ASSERT(!good | (f0 != vf_ba_failed) | (u0 != upfail),
                      "a proper split is accepted");
        break;
    }
    case 'M': {
        if ((i = pick(-1, false)) < 0)
            break;
        j = pick(S[i].lvl, false);
        if (j == i)
            break;
        /* precondition: blocks of one pool, adjacent, with their total size */
        VF_ASSUME((S[i].b + S[i].n == S[j].b) & (S[i].parent == S[j].parent));
        int f0 = vf_ba_failed, u0 = upfail;
        umf_result_t r = umfMemoryProviderAllocationMerge(
            TP[S[i].lvl], (void *)S[i].b, (void *)S[j].b, S[i].n + S[j].n);
        if (r == UMF_RESULT_SUCCESS) {
            S[i].n += S[j].n;
            S[j].live = false;
            for (int k = 0; k < ns; k++)
                if (S[k].parent == j)
                    S[k].parent = i;
            VF_REACH("merge");
        } else
            VF_ASSERT((f0 != vf_ba_failed) | (u0 != upfail),
                      "a proper merge is accepted");
        break;
    }
    case 'Q':
        query();
        break;
    }
}
void VF_ENTRY(void) {
    umf_memory_provider_ops_t ops;
    memset(&ops, 0, sizeof ops);
    ops.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    ops.initialize = up_init;
    ops.finalize = up_fini;
    ops.alloc = up_alloc;
    ops.free = up_free;
    ops.get_last_native_error = up_err;
    ops.get_recommended_page_size = up_page;
    ops.get_min_page_size = up_page2;
    ops.get_name = up_name;
    ops.ext.allocation_split = up_split;
    ops.ext.allocation_merge = up_merge;
    TRACKER = umfMemoryTrackerCreate();
    VF_MADE(umfIpcCacheGlobalInit() == UMF_RESULT_SUCCESS);
    for (int i = 0; i < VF_NL; i++) {
        VF_MADE(umfMemoryProviderCreate(&ops, &privs[i], &UP[i]) ==
                  UMF_RESULT_SUCCESS);
        VF_MADE(umfTrackingMemoryProviderCreate(UP[i], &POOL[i], &TP[i]) ==
                  UMF_RESULT_SUCCESS);
    }
    long live0 = vf_ba_live;
    vf_ba_fail_budget = VF_OOM;
    upfail = VF_UPFAIL;
    for (const char *p = VF_OPS; *p; p++) {
        op(*p);
        VF_ASSERT(books(), "the upstream and the tracker agree on what is live");
    }
    vf_ba_fail_budget = upfail = 0;
    query();
    /* everything can be freed, and nothing stays behind */
    for (int l = VF_NL - 1; l >= 0; l--)
        for (int i = 0; i < ns; i++)
            if (S[i].live && S[i].lvl == l)
                dofree(i);
    VF_ASSERT(books(), "the upstream got everything back");
    VF_ASSERT(vf_ba_live == live0, "no tracking entry stays behind");
    for (int i = 0; i < VF_NL; i++) {
        umfMemoryProviderDestroy(TP[i]);
        umfMemoryProviderDestroy(UP[i]);
    }
    umfIpcCacheGlobalTearDown();
    umfMemoryTrackerDestroy(TRACKER);
    VF_ASSERT(vf_ba_live == 0 && vf_maps_live == 0 && vf_bapools_live == 0 &&
                  vf_locks_live == 0 && vf_locks_held == 0,
              "nothing is leaked");
    VF_REACH("end");
}
