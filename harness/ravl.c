/* M03: the balanced tree behind the coarse allocator's blocks: an ordered map.
 * Histories VF_OPS: I insert any key, R remove a key by any predicate, Q query
 * any key with every predicate and walk from it, W walk both ways, X clear. */
#include "ravl/ravl.h"
#include "vf.h"
#include "vf_models.h"
#include <errno.h>
#ifndef VF_OPS
#define VF_OPS "IIRQ"
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
#ifndef VF_PTR
#define VF_PTR 0
#endif
#define N 10
struct ent {
    uint64_t k, v;
};
static struct ent S[N]; /* sorted */
static struct ent keep[N];
static int n, ins, removed, cmps;
static struct ravl *T;
static int cmp(const void *l, const void *r) {
    const struct ent *a = l, *b = r;
    cmps++;
    return a->k > b->k ? 1 : a->k < b->k ? -1 : 0;
}
static struct ent *data(struct ravl_node *x) { return ravl_data(x); }
/* the index in S of the key, or where it would be inserted */
static int place(uint64_t k, bool *there) {
    int i = 0;
    while (i < n && S[i].k < k)
        i++;
    *there = i < n && S[i].k == k;
    return i;
}
static void expect(struct ravl_node *x, int i) {
    if (i < 0 || i >= n) {
        VF_ASSERT(x == NULL, "nothing is found where there is nothing");
    } else {
        VF_ASSERT(x != NULL, "the key next to the one asked for is found");
        VF_ASSERT((data(x)->k == S[i].k) & (data(x)->v == S[i].v), "the key found is the right one, with its value");
    }
}
static struct ravl_node *find(uint64_t k, enum ravl_predicate p) {
    struct ent e = {k, 0};
    cmps = 0;
    struct ravl_node *x = ravl_find(T, &e, p);
    /* 1, 2, 4, 7, 12 nodes at least make an AVL tree of 1, 2, 3, 4, 5 levels */
    static const int levels[] = {0, 1, 2, 2, 3, 3, 3, 4, 4, 4, 4};
    if (!removed)
        VF_ASSERT(cmps <= levels[n], "a lookup visits a logarithmic number of keys");
    return x;
}
static int by(enum ravl_predicate p, int i, bool there) {
    switch (p) {
    case RAVL_PREDICATE_EQUAL:
        return there ? i : -1;
    case RAVL_PREDICATE_GREATER:
        return there ? i + 1 : i;
    case RAVL_PREDICATE_LESS:
        return i - 1;
    case RAVL_PREDICATE_LESS_EQUAL:
        return there ? i : i - 1;
    default:
        return i;
    }
}
static void cb(void *d, void *arg) {
    int *i = arg;
    struct ent *e = VF_PTR ? *(struct ent **)d : d; /* the stored bytes */
    VF_ASSERT(*i < n, "a walk visits every key once");
    VF_ASSERT((e->k == S[*i].k) & (e->v == S[*i].v), "a walk visits the keys in order");
    ++*i;
}
static void walk(void) {
    int i = 0;
    ravl_foreach(T, cb, &i);
    VF_ASSERT(i == n, "a walk visits every key");
    i = 0;
    struct ravl_node *x;
    for (x = ravl_first(T); x; x = ravl_node_successor(x))
        expect(x, i++);
    VF_ASSERT(i == n, "a walk up visits every key");
    for (x = ravl_last(T); x; x = ravl_node_predecessor(x))
        expect(x, --i);
    VF_ASSERT(i == 0, "a walk down visits every key");
    VF_ASSERT(!!ravl_empty(T) == (n == 0), "an empty tree says so");
}
static int dn;
static void del(void *d, void *arg) {
    (void)d, (void)arg;
    dn++;
}
int VF_ENTRY(void) {
    long base = vf_ba_live;
    T = VF_PTR ? ravl_new(cmp) : ravl_new_sized(cmp, sizeof(struct ent));
    VF_ASSERT(T != NULL, "a tree");
    vf_ba_fail_budget = VF_OOM;
    static const char script[] = VF_OPS;
    static const enum ravl_predicate preds[] = {RAVL_PREDICATE_EQUAL, RAVL_PREDICATE_GREATER, RAVL_PREDICATE_LESS, RAVL_PREDICATE_LESS_EQUAL, RAVL_PREDICATE_GREATER_EQUAL};
    for (unsigned s = 0; s < sizeof(script) - 1; s++) {
        uint64_t k = script[s] == 'W' || script[s] == 'X' ? 0 : nd_u64();
        bool there;
        int i, f = vf_ba_failed;
        switch (script[s]) {
        case 'I': {
            keep[ins] = (struct ent){k, (uint64_t)ins + 100};
            int r = VF_PTR ? ravl_insert(T, &keep[ins]) : ravl_emplace_copy(T, &keep[ins]);
            i = place(k, &there);
            VF_ASSERT((r == 0) == (!there && f == vf_ba_failed), "a new key is inserted, an old one is not");
            if (r == 0) {
                for (int j = n; j > i; j--)
                    S[j] = S[j - 1];
                S[i] = keep[ins];
                n++;
                VF_REACH("inserted");
            } else if (f == vf_ba_failed) {
                VF_ASSERT(errno == EEXIST, "an old key is reported as one");
                VF_REACH("duplicate");
            }
            ins++;
            break;
        }
        case 'R': {
            enum ravl_predicate p = preds[nd_pick(5)];
            i = place(k, &there);
            struct ravl_node *x = find(k, p);
            i = by(p, i, there);
            expect(x, i);
            if (x && i >= 0 && i < n) {
                ravl_remove(T, x);
                n--;
                removed = 1;
                for (int j = i; j < n; j++)
                    S[j] = S[j + 1];
                VF_REACH("removed");
            }
            break;
        }
        case 'Q':
            i = place(k, &there);
            for (int p = 0; p < 5; p++) {
                int w = by(preds[p], i, there);
                struct ravl_node *x = find(k, preds[p]);
                expect(x, w);
                if (x) {
                    expect(ravl_node_successor(x), w + 1);
                    expect(ravl_node_predecessor(x), w - 1);
                }
            }
            VF_REACH("queried");
            break;
        case 'W':
            walk();
            break;
        case 'X':
            ravl_clear(T);
            n = 0;
            removed = 0;
            break;
        }
    }
    walk();
    ravl_delete_cb(T, del, NULL);
    VF_ASSERT(dn == n, "deletion visits every key");
    VF_ASSERT(vf_ba_live == base, "no memory is left behind");
    VF_REACH("end");
    return 0;
}
