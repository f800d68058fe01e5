/* Contract model of the utils_* locks.  Checks lock discipline: a thread never
 * takes a lock it holds, only a holder releases, no destruction while held.
 * In threaded units every acquisition is a scheduling point, blocking is
 * modelled, and happens-before edges feed the race analysis. */
#include "utils_concurrency.h"
#include "vf.h"
#include "vf_models.h"
int vf_locks_held;
int vf_locks_live;
bool vf_lock_init_may_fail;
int vf_locks_failed;
struct vf_lock {
    int any; /* readers + writer */
    int w;   /* writer */
    int owner; /* thread + 1 of the writer */
};
static struct vf_lock *L(void *p) { return (struct vf_lock *)p; }
size_t utils_mutex_get_size(void) { return sizeof(pthread_mutex_t); }
static void *init(void *p) {
    if (vf_lock_init_may_fail && nd_choice()) {
        vf_locks_failed++;
        return NULL;
    }
    L(p)->any = L(p)->w = L(p)->owner = 0;
    vf_locks_live++;
    return p;
}
static void destroy(void *p) {
    VF_ASSERT(L(p)->any == 0, "a lock is destroyed only when it is not held");
    vf_locks_live--;
}
static int wlock(void *p) {
    VF_ASSERT(L(p)->owner != symx_tid() + 1,
              "a thread never takes a lock it already holds");
#ifdef VF_THREADS
    symx_yield();
    symx_wait0(&L(p)->any);
    symx_acquire(p);
    symx_acquire((char *)p + 1);
#else
    VF_ASSERT(L(p)->any == 0, "a thread never takes a lock it already holds");
#endif
    L(p)->any = L(p)->w = 1;
    L(p)->owner = symx_tid() + 1;
    vf_locks_held++;
    return 0;
}
static int wunlock(void *p) {
    VF_ASSERT(L(p)->owner == symx_tid() + 1, "only a held lock is released");
#ifdef VF_THREADS
    symx_release(p);
#endif
    L(p)->any = L(p)->w = L(p)->owner = 0;
    vf_locks_held--;
    return 0;
}
static int rlock(void *p) {
    VF_ASSERT(L(p)->owner != symx_tid() + 1,
              "a thread never takes a lock it already holds");
#ifdef VF_THREADS
    symx_yield();
    symx_wait0(&L(p)->w);
    symx_acquire(p);
#else
    VF_ASSERT(L(p)->w == 0, "a thread never takes a lock it already holds");
#endif
    L(p)->any++;
    vf_locks_held++;
    return 0;
}
static int runlock(void *p) {
    VF_ASSERT(L(p)->any > 0 && !L(p)->w, "only a held lock is released");
#ifdef VF_THREADS
    symx_release((char *)p + 1);
#endif
    L(p)->any--;
    vf_locks_held--;
    return 0;
}
utils_mutex_t *utils_mutex_init(utils_mutex_t *p) { return init(p); }
void utils_mutex_destroy_not_free(utils_mutex_t *p) { destroy(p); }
int utils_mutex_lock(utils_mutex_t *p) { return wlock(p); }
int utils_mutex_unlock(utils_mutex_t *p) { return wunlock(p); }
utils_rwlock_t *utils_rwlock_init(utils_rwlock_t *p) { return init(p); }
void utils_rwlock_destroy_not_free(utils_rwlock_t *p) { destroy(p); }
int utils_read_lock(utils_rwlock_t *p) { return rlock(p); }
int utils_read_unlock(utils_rwlock_t *p) { return runlock(p); }
int utils_write_lock(utils_rwlock_t *p) { return wlock(p); }
int utils_write_unlock(utils_rwlock_t *p) { return wunlock(p); }
void utils_init_once(UTIL_ONCE_FLAG *flag, void (*cb)(void)) {
#ifdef VF_THREADS
    static int running;
    symx_yield();
    if (*(int *)flag != 2)
        symx_wait0(&running);
    symx_acquire(flag);
#endif
    if (*(int *)flag == 0) {
        *(int *)flag = 1;
#ifdef VF_THREADS
        running = 1;
        cb();
        running = 0;
        symx_release(flag);
#else
        cb();
#endif
        *(int *)flag = 2;
    }
}
