/* Contract model of critnib.h, the pointer map: a mathematical map from 64-bit
 * keys to values.  The real map is decided by M01/M02.  Insertions may be
 * refused (ENOMEM) while vf_ba_fail_budget lasts, unless they update. */
#include "critnib.h"
#include "vf.h"
#include "vf_models.h"
#include <errno.h>
#include <stdlib.h>
#ifndef CN_MAX
#define CN_MAX 8
#endif
int vf_maps_live;
struct critnib {
    int n;
    struct {
        uintptr_t k;
        void *v;
    } e[CN_MAX];
};
static bool refused(void) {
    if (vf_ba_fail_budget > 0 && nd_bool()) {
        vf_ba_fail_budget--;
        vf_ba_failed++;
        return true;
    }
    return false;
}
#ifdef VF_THREADS
#define ENTER(c) (symx_yield(), symx_acquire(c))
#define LEAVE(c) (symx_release(c), symx_yield())
#else
#define ENTER(c) (void)0
#define LEAVE(c) (void)0
#endif
critnib *critnib_new(void) {
    if (refused())
        return NULL;
    critnib *c = malloc(sizeof *c);
    VF_ASSUME(c != NULL);
    c->n = 0;
    vf_maps_live++;
    return c;
}
void critnib_delete(critnib *c) {
    vf_maps_live--;
    free(c);
}
int critnib_insert(critnib *c, uintptr_t key, void *value, int update) {
    ENTER(c);
    int r = 0;
    for (int i = 0; i < c->n; i++)
        if (c->e[i].k == key) {
            if (update)
                c->e[i].v = value;
            else
                r = EEXIST;
            goto out;
        }
    if (refused()) {
        r = ENOMEM;
        goto out;
    }
    if (c->n == CN_MAX)
        VF_LIMIT("map entries");
    c->e[c->n].k = key;
    c->e[c->n++].v = value;
out:
    LEAVE(c);
    return r;
}
void *critnib_remove(critnib *c, uintptr_t key) {
    void *v = NULL;
    ENTER(c);
    for (int i = 0; i < c->n; i++)
        if (c->e[i].k == key) {
            v = c->e[i].v;
            c->e[i] = c->e[--c->n];
            break;
        }
    LEAVE(c);
    return v;
}
/* dir as in find_dir_t; the index of the answer or -1 */
static int look(critnib *c, uintptr_t key, int dir) {
    int b = -1;
    for (int i = 0; i < c->n; i++) {
        uintptr_t k = c->e[i].k;
        bool m = dir == 0    ? k == key
                 : dir == -1 ? k <= key
                 : dir == -2 ? k < key
                 : dir == 1  ? k >= key
                             : k > key;
        if (m && (b < 0 || (dir < 0 ? k > c->e[b].k : k < c->e[b].k)))
            b = i;
    }
    return b;
}
void *critnib_get(critnib *c, uintptr_t key) {
    ENTER(c);
    int i = look(c, key, 0);
    void *v = i < 0 ? NULL : c->e[i].v;
    LEAVE(c);
    return v;
}
void *critnib_find_le(critnib *c, uintptr_t key) {
    ENTER(c);
    int i = look(c, key, -1);
    void *v = i < 0 ? NULL : c->e[i].v;
    LEAVE(c);
    return v;
}
int critnib_find(critnib *c, uintptr_t key, enum find_dir_t dir,
                 uintptr_t *rkey, void **rvalue) {
    ENTER(c);
    int i = look(c, key, dir);
    if (i >= 0) {
        if (rkey)
            *rkey = c->e[i].k;
        if (rvalue)
            *rvalue = c->e[i].v;
    }
    LEAVE(c);
    return i >= 0;
}
void critnib_iter(critnib *c, uintptr_t min, uintptr_t max,
                  int (*func)(uintptr_t, void *, void *), void *priv) {
    int dir = FIND_GE;
    for (;;) {
        int i = look(c, min, dir);
        if (i < 0 || c->e[i].k > max)
            return;
        min = c->e[i].k;
        dir = FIND_G;
        if (func(min, c->e[i].v, priv))
            return;
    }
}
