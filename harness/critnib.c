/* critnib as an ordered map.  Keys: a base pattern with symbolic nibbles;
 * queries: arbitrary 64-bit keys. */
#include "critnib.h"
#include <errno.h>
#include "vf.h"
#include "vf_models.h"
#ifndef VF_OOM
#define VF_OOM 0
#endif
#define NMAX 24
static uintptr_t key[NMAX];
static void *val[NMAX];
static bool in[NMAX];
static int n;
static struct critnib *C;
static uintptr_t nextval = 0x1000;
static uintptr_t base;
static uintptr_t mkkey(void) {
    uintptr_t k = base;
    static const int pos[] = {VF_POS};
    for (unsigned i = 0; i < sizeof pos / sizeof *pos; i++)
        k ^= (uintptr_t)nd_pick(VF_NIB + 1) << pos[i];
    return k;
}
static int idx(uintptr_t k) {
    for (int i = 0; i < n; i++)
        if (in[i] && key[i] == k)
            return i;
    return -1;
}
static void q_get(uintptr_t q) {
    uintptr_t r = (uintptr_t)critnib_get(C, q);
    bool any = false, ok = true;
    for (int i = 0; i < n; i++)
        if (in[i]) {
            any |= key[i] == q;
            ok &= (key[i] != q) | (r == (uintptr_t)val[i]);
        }
    VF_ASSERT(ok & (any | (r == 0)), "get returns the value of exactly that key");
}
static void q_le(uintptr_t q) {
    void *r = critnib_find_le(C, q);
    bool any = false, ok = r == NULL;
    for (int i = 0; i < n; i++)
        if (in[i]) {
            any |= key[i] <= q;
            if (r == val[i]) {
                ok = key[i] <= q;
                for (int j = 0; j < n; j++)
                    if (in[j])
                        ok &= (key[j] <= key[i]) | (key[j] > q);
            }
        }
    VF_ASSERT(ok & ((r != NULL) == any),
              "find_le returns the value of the greatest key not above");
}
static void q_find(uintptr_t q, int d) {
    uintptr_t rk = 0;
    void *rv = NULL;
    int f = critnib_find(C, q, (enum find_dir_t)d, &rk, &rv);
    bool any = false, ok = !f;
    for (int i = 0; i < n; i++)
        if (in[i]) {
            bool m = d == 0    ? key[i] == q
                     : d == -1 ? key[i] <= q
                     : d == -2 ? key[i] < q
                     : d == 1  ? key[i] >= q
                               : key[i] > q;
            any |= m;
            if (f && rv == val[i]) {
                ok = m & (rk == key[i]);
                for (int j = 0; j < n; j++)
                    if (in[j])
                        ok &= d < 0 ? ((key[j] <= key[i]) | (key[j] > q) |
                                       ((d == -2) & (key[j] == q)))
                              : d > 0 ? ((key[j] >= key[i]) | (key[j] < q) |
                                         ((d == 2) & (key[j] == q)))
                                      : true;
            }
        }
    VF_ASSERT(ok & (f == any),
              "find returns the nearest key in the direction asked for");
}
static uintptr_t it_last, it_min, it_max;
static int it_n;
static bool it_ok;
static int it_cb(uintptr_t k, void *v, void *p) {
    (void)p;
    it_ok &= (k >= it_min) & (k <= it_max) & ((it_n == 0) | (k > it_last));
    bool f = false;
    for (int i = 0; i < n; i++)
        f |= in[i] & (key[i] == k) & (val[i] == v);
    it_ok &= f;
    it_last = k;
    it_n++;
    return 0;
}
static void q_iter(void) {
    it_min = nd_u64();
    it_max = nd_u64();
    VF_ASSUME(it_min <= it_max);
    it_n = 0;
    it_ok = true;
    critnib_iter(C, it_min, it_max, it_cb, NULL);
    int e = 0;
    for (int i = 0; i < n; i++)
        e += in[i] & (key[i] >= it_min) & (key[i] <= it_max);
    VF_ASSERT(it_ok & (it_n == e),
              "the iterator visits every key of the range once, in order");
    VF_REACH("iter");
}
void VF_ENTRY(void) {
    static const uintptr_t bases[] = {VF_BASES};
    base = bases[nd_pick(sizeof bases / sizeof *bases)];
    C = critnib_new();
    VF_ASSUME(C != NULL);
    const char ops[] = VF_OPS;
    for (unsigned o = 0; o + 1 < sizeof ops; o++)
        switch (ops[o]) {
        case 'i':
        case 'I':
        case 'u': { /* insert new; insert any; update */
            uintptr_t k = mkkey();
            int i = idx(k);
            if (ops[o] == 'i')
                VF_ASSUME(i < 0);
            void *v = (void *)(nextval += 8);
            vf_ba_fail_budget = ops[o] != 'i' ? VF_OOM : 0;
            vf_ba_failed = 0;
            int r = critnib_insert(C, k, v, ops[o] == 'u');
            vf_ba_fail_budget = 0;
            if (r == ENOMEM) {
                VF_ASSERT(vf_ba_failed, "out of memory only when it is");
                VF_ASSERT(i < 0 || ops[o] != 'u',
                          "updating a value needs no memory");
                VF_REACH("enomem");
                break;
            }
            if (i >= 0) {
                if (ops[o] == 'u')
                    val[i] = v;
                VF_ASSERT(r == (ops[o] == 'u' ? 0 : EEXIST),
                          "a key is there once");
                VF_REACH("again");
                break;
            }
            VF_ASSERT(r == 0, "a new key is inserted");
            key[n] = k;
            val[n] = v;
            in[n++] = true;
            break;
        }
        case 'R': { /* remove a key that is there, or not */
            uintptr_t k = mkkey();
            int i = idx(k);
            void *r = critnib_remove(C, k);
            VF_ASSERT(r == (i < 0 ? NULL : val[i]),
                      "removal returns the value");
            if (i >= 0)
                in[i] = false, VF_REACH("removed");
            break;
        }
        case 'r': { /* remove one that is there */
            int i = nd_pick(n);
            VF_ASSUME(in[i]);
            VF_ASSERT(critnib_remove(C, key[i]) == val[i],
                      "removal returns the value");
            in[i] = false;
            VF_REACH("removed");
            break;
        }
        case 'C': /* run through the grace period */
            for (int i = 0; i < 18; i++) {
                uintptr_t k = base ^ 0xf00;
                VF_ASSUME(idx(k) < 0);
                VF_ASSERT(critnib_insert(C, k, (void *)8, 0) == 0 &&
                              critnib_get(C, k) == (void *)8 &&
                              critnib_remove(C, k) == (void *)8,
                          "a key can come and go");
            }
            break;
        case 'Z': /* removals of a key that is not there, over two grace periods */
            for (int i = 0; i < 35; i++) {
                uintptr_t k = base ^ 0xf00;
                VF_ASSUME(idx(k) < 0);
                VF_ASSERT(critnib_remove(C, k) == NULL,
                          "removal of an absent key returns nothing");
            }
            break;
        case 'g': q_get(nd_u64()); break;
        case 'l': q_le(nd_u64()); break;
        case 'f': q_find(nd_u64(), (int)nd_pick(5) - 2); break;
        case 't': q_iter(); break;
        case '*': /* every key is where it should be */
            for (int i = 0; i < n; i++)
                if (in[i])
                    VF_ASSERT((critnib_get(C, key[i]) == val[i]) &
                                  (critnib_find_le(C, key[i]) == val[i]),
                              "a key that is in the map is found");
            break;
        }
    critnib_delete(C);
    VF_ASSERT(vf_ba_live == 0, "no memory is leaked");
    VF_ASSERT(vf_locks_held == 0 && vf_locks_live == 0, "no lock is left");
    VF_REACH("end");
}
