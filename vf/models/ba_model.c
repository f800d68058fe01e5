/* Contract model of the metadata allocator (base_alloc_global.h): fresh,
 * uninitialised memory or NULL.  The real allocator is decided by B01-B03. */
#include "base_alloc_global.h"
#include "vf.h"
#include "vf_models.h"
#include <stdlib.h>
long vf_ba_live;
int vf_ba_fail_budget;
int vf_ba_failed;
void *umf_ba_global_alloc(size_t size) {
    if (size == 0)
        return NULL;
    if (vf_ba_fail_budget > 0 && nd_bool()) {
        vf_ba_fail_budget--;
        vf_ba_failed++;
        return NULL;
    }
    void *p = malloc(size);
    VF_ASSUME(p != NULL);
    vf_ba_live++;
    return p;
}
void umf_ba_global_free(void *ptr) {
    if (!ptr)
        return;
    vf_ba_live--;
    free(ptr);
}
bool umf_ba_global_is_destroyed(void) { return false; }
void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
    (void)alignment;
    return umf_ba_global_alloc(size);
}
size_t umf_ba_global_malloc_usable_size(void *ptr) {
    (void)ptr;
    VF_ASSUME(0);
    return 0;
}
