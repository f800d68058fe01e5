/* critnib: lock-free readers against a writer; two writers. */
#include "critnib.h"
#include "vf.h"
#include "vf_models.h"
static struct critnib *C;
/* keys that share nodes: k0, kx stay; k1, k2 come and go */
static const uintptr_t K0 = 0x10, KX = 0x2000, K1 = 0x11, K2 = 0x15;
/* the values: any (not NULL) */
static uint64_t v0, vx, v1, v2, vo;
static void *V(uintptr_t k) {
    return (void *)(k == K0 ? v0 : k == KX ? vx : k == K1 ? v1 : k == K2 ? v2 : vo);
}
static bool is(void *v, uintptr_t k) { return v == V(k); }
static void writer(void *a) {
    (void)a;
#if VF_MODE == 3 || VF_MODE == 6 || VF_MODE == 7
    for (int i = 0; i < 17; i++) {
        VF_ASSERT(critnib_insert(C, K1, V(K1), 0) == 0, "a new key is inserted");
        VF_ASSERT(is(critnib_remove(C, K1), K1), "removal returns the value");
    }
    /* the removed node and leaf are in use again, elsewhere */
    critnib_insert(C, 0x777001, V(0x777001), 0);
#else
    critnib_insert(C, K1, V(K1), 0);
    VF_ASSERT(is(critnib_get(C, K1), K1), "a key just inserted is found");
    critnib_insert(C, K2, V(K2), 0);
    VF_ASSERT(is(critnib_remove(C, K1), K1), "removal returns the value");
    VF_ASSERT(is(critnib_remove(C, K2), K2), "removal returns the value");
#endif
}
static void reader(void *a) {
    (void)a;
    void *r;
#if VF_MODE == 1 || VF_MODE == 3
    VF_ASSERT(is(critnib_get(C, K0), K0),
              "a key that stays is found whatever others do");
    r = critnib_get(C, K1);
    VF_ASSERT((r == NULL) | is(r, K1), "a key has its own value or none");
#endif
#if VF_MODE == 8
    uint64_t q = nd_range(0x10, 0x11);
    r = critnib_get(C, q);
    VF_ASSERT((q == K0) ? is(r, K0) : ((r == NULL) | is(r, K1)),
              "a key has its own value or none");
#endif
#if VF_MODE == 9
    uint64_t q = nd_range(0x11, 0x12);
    r = critnib_find_le(C, q);
    VF_ASSERT(is(r, K0) | is(r, K1),
              "find_le returns a value that was right during the call");
#endif
#if VF_MODE == 2 || VF_MODE == 6
    r = critnib_find_le(C, 0x13);
    VF_ASSERT(is(r, K0) | is(r, K1),
              "find_le returns a value that was right during the call");
    r = critnib_find_le(C, 0x776fff);
    VF_ASSERT(is(r, KX), "find_le returns a value that was right during the call");
#endif
#if VF_MODE == 5 || VF_MODE == 7
    uintptr_t k = 0;
    r = NULL;
    VF_ASSERT(critnib_find(C, 0x11, FIND_GE, &k, &r) == 1 &&
                  (k == K1 || k == K2 || k == KX) && r == V(k),
              "find returns a key and value that were right during the call");
    VF_ASSERT(critnib_find(C, K1, FIND_L, &k, &r) == 1 && k == K0 &&
                  r == V(K0),
              "find returns a key and value that were right during the call");
#endif
}
static void w2(void *a) {
    (void)a;
    VF_ASSERT(critnib_insert(C, 0x19, V(0x19), 0) == 0, "a new key is inserted");
    VF_ASSERT(is(critnib_remove(C, KX), KX), "removal returns the value");
}
void VF_ENTRY(void) {
    v0 = nd_range(1, ~0ull), vx = nd_range(1, ~0ull), v1 = nd_range(1, ~0ull);
    v2 = nd_range(1, ~0ull), vo = nd_range(1, ~0ull);
    C = critnib_new();
    VF_ASSUME(C != NULL);
    critnib_insert(C, K0, V(K0), 0);
    critnib_insert(C, KX, V(KX), 0);
    critnib_insert(C, 0x777000, V(0x777000), 0);
    symx_spawn(writer, NULL);
    symx_spawn(VF_MODE == 4 ? w2 : reader, NULL);
    symx_join_all();
    VF_ASSERT(is(critnib_get(C, K0), K0), "a key that stays is found");
    VF_ASSERT(critnib_get(C, K1) == NULL && critnib_get(C, K2) == NULL,
              "a removed key is gone");
    VF_ASSERT(is(critnib_get(C, KX), KX) == (VF_MODE != 4), "a removed key is gone");
    VF_ASSERT(is(critnib_get(C, 0x19), 0x19) == (VF_MODE == 4), "a new key is there");
    critnib_delete(C);
    VF_ASSERT(vf_ba_live == 0, "no memory is leaked");
    VF_REACH("end");
}
