/* Contract model of base_alloc.h (fixed-size object pools): fresh memory or
 * NULL.  The real pools are decided by B01. */
#include "base_alloc.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
#include <string.h>
struct umf_ba_pool_t {
    size_t size;
    long live;
    void *freed; /* VF_REUSE: as the real pools, freed objects are handed out
                    again and stay readable */
};
int vf_bapools_live;
static bool refused(void) {
    if (vf_ba_fail_budget > 0 && nd_bool()) {
        vf_ba_fail_budget--;
        vf_ba_failed++;
        return true;
    }
    return false;
}
umf_ba_pool_t *umf_ba_create(size_t size) {
    if (refused())
        return NULL;
    umf_ba_pool_t *p = malloc(sizeof *p);
    VF_ASSUME(p != NULL);
    p->size = size;
    p->live = 0;
    p->freed = NULL;
    vf_bapools_live++;
    return p;
}
#ifdef VF_THREADS
#define ENTER(c) (symx_yield(), symx_acquire(c))
#define LEAVE(c) symx_release(c)
#else
#define ENTER(c) (void)0
#define LEAVE(c) (void)0
#endif
void *umf_ba_alloc(umf_ba_pool_t *pool) {
    if (refused())
        return NULL;
    ENTER(pool);
    void *p = pool->freed;
    if (p)
        memcpy(&pool->freed, p, sizeof(void *));
    else
        p = malloc(pool->size);
    VF_ASSUME(p != NULL);
    pool->live++;
    vf_ba_live++;
    LEAVE(pool);
    return p;
}
void umf_ba_free(umf_ba_pool_t *pool, void *ptr) {
    if (!ptr)
        return;
    ENTER(pool);
    VF_ASSERT(pool->live > 0, "an object goes back to its own pool");
    pool->live--;
    vf_ba_live--;
#if defined(VF_REUSE) && VF_REUSE == 2 /* kept readable, not reused */
    (void)ptr;
#elif defined(VF_REUSE)
    memcpy(ptr, &pool->freed, sizeof(void *));
    pool->freed = ptr;
#else
    free(ptr);
#endif
    LEAVE(pool);
}
void umf_ba_destroy(umf_ba_pool_t *pool) {
    vf_bapools_live--;
    free(pool);
}
