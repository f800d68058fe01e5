/* The thin layers over the system. VF_MODE 1 locks and once, 2 libraries,
 * 3 descriptors of other processes, file sizes, ids, 4 the topology. */
#include "vf.h"
#include "vf_models.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#if VF_MODE == 1
#include "utils_concurrency.h"
#include <pthread.h>
static int fid, n;
static void *arg, *arg2;
static int res;
#define REC(f, p, q) return fid = f, n++, arg = (void *)(p), arg2 = (void *)(q), res
int vf_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { REC(1, m, a); }
int vf_pthread_mutex_destroy(pthread_mutex_t *m) { REC(2, m, 0); }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { REC(3, m, 0); }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { REC(4, m, 0); }
int vf_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { REC(5, m, a); }
int vf_pthread_rwlock_destroy(pthread_rwlock_t *m) { REC(6, m, 0); }
int vf_pthread_rwlock_rdlock(pthread_rwlock_t *m) { REC(7, m, 0); }
int vf_pthread_rwlock_wrlock(pthread_rwlock_t *m) { REC(8, m, 0); }
int vf_pthread_rwlock_unlock(pthread_rwlock_t *m) { REC(9, m, 0); }
int vf_pthread_once(pthread_once_t *o, void (*f)(void)) { REC(10, o, f); }
static void cb(void) {}
static void run(void) {
    static pthread_mutex_t M;
    static pthread_rwlock_t W;
    static UTIL_ONCE_FLAG O = UTIL_ONCE_FLAG_INIT;
    utils_mutex_t *m = (utils_mutex_t *)&M;
    utils_rwlock_t *w = (utils_rwlock_t *)&W;
    VF_ASSERT(utils_mutex_get_size() == sizeof(pthread_mutex_t) && sizeof(utils_mutex_t) >= sizeof(pthread_mutex_t) &&
                  sizeof(utils_rwlock_t) >= sizeof(pthread_rwlock_t), "a lock has room for the system's");
    res = (int)nd_range(0, 200);
    int k = nd_pick(11), want = res;
    void *on = k < 5 ? (void *)&M : (void *)&W;
    int f = 0, r = res;
    switch (k) {
    case 0: f = 1; VF_ASSERT(utils_mutex_init(m) == (res ? NULL : m), "a lock that cannot be made is reported"); break;
    case 1: f = 2; utils_mutex_destroy_not_free(m); break;
    case 2: f = 3; r = utils_mutex_lock(m); break;
    case 3: f = 4; r = utils_mutex_unlock(m); break;
    case 4: f = 10, on = &O; utils_init_once(&O, cb); VF_ASSERT(arg2 == (void *)cb, "the callback is run once"); break;
    case 5: f = 5; VF_ASSERT(utils_rwlock_init(w) == (res ? NULL : w), "a lock that cannot be made is reported"); break;
    case 6: f = 6; utils_rwlock_destroy_not_free(w); break;
    case 7: f = 7; r = utils_read_lock(w); break;
    case 8: f = 8; r = utils_write_lock(w); break;
    case 9: f = 9; r = utils_read_unlock(w); break;
    default: f = 9; r = utils_write_unlock(w); break;
    }
    VF_ASSERT(n == 1 && fid == f && arg == on, "the system's lock is used, once");
    VF_ASSERT(r == want, "the system's answer is returned");
    /* atomics */
    uint64_t x = nd_u64(), y = nd_u64(), v = x, g = nd_u64(), e = g;
    void *p = NULL, *q = (void *)y, *pp;
    VF_ASSERT(utils_fetch_and_add_u64(&v, y) == x && v == x + y, "add");
    v = x;
    VF_ASSERT(utils_fetch_and_sub_u64(&v, y) == x && v == x - y, "sub");
    v = x;
    VF_ASSERT(utils_atomic_increment_u64(&v) == x + 1 && v == x + 1, "increment");
    VF_ASSERT(utils_atomic_decrement_u64(&v) == x && v == x, "decrement");
    bool eq = utils_compare_exchange_u64(&v, &e, &y);
    VF_ASSERT(eq == (g == x) && v == (g == x ? y : x) && e == (g == x ? g : x), "compare and exchange");
    utils_atomic_store_release_u64(&v, g);
    uint64_t o = 0;
    utils_atomic_load_acquire_u64(&v, &o);
    VF_ASSERT(o == g && v == g, "store and load");
    utils_atomic_store_release_ptr(&p, q);
    utils_atomic_load_acquire_ptr(&p, &pp);
    VF_ASSERT(pp == q, "store and load");
}
#elif VF_MODE == 2
#include "utils_load_library.h"
#include <dlfcn.h>
static char lib, sym;
static int flags, n;
static const void *handle, *name;
static bool fail;
static int res;
void *vf_dlopen(const char *f, int fl) { return n++, name = f, flags = fl, fail ? NULL : &lib; }
int vf_dlclose(void *h) { return n++, handle = h, res; }
void *vf_dlsym(void *h, const char *s) { return n++, handle = h, name = s, fail ? NULL : &sym; }
char *vf_dlerror(void) { return (char *)"no"; }
static void run(void) {
    static const char what[] = "x";
    int fl = nd_pick(4);
    fail = nd_choice();
    res = (int)nd_range(0, 100);
    void *h;
    switch (nd_pick(3)) {
    case 0: {
        int want = RTLD_LAZY | (fl & 1 ? RTLD_GLOBAL : 0) | (fl & 2 ? RTLD_NOLOAD : 0);
        h = utils_open_library(what, (fl & 1 ? UMF_UTIL_OPEN_LIBRARY_GLOBAL : 0) | (fl & 2 ? (UMF_UTIL_OPEN_LIBRARY_NO_LOAD) : 0));
        VF_ASSERT(h == (fail ? NULL : &lib) && name == what, "the library named is opened");
        VF_ASSERT((flags & (RTLD_GLOBAL | RTLD_NOLOAD)) == (want & (RTLD_GLOBAL | RTLD_NOLOAD)), "as asked for");
        VF_ASSERT((flags & RTLD_NOW) || (flags & RTLD_LAZY), "with a valid mode");
        break;
    }
    case 1:
        VF_ASSERT(utils_close_library(&lib) == res && handle == &lib, "the library is closed");
        break;
    default:
        h = nd_choice() ? &lib : NULL;
        VF_ASSERT(utils_get_symbol_addr(h, what, NULL) == (fail ? NULL : &sym) && name == what &&
                      handle == (h ? h : RTLD_DEFAULT), "the symbol named is looked up in the library named");
        break;
    }
    VF_ASSERT(n == 1, "the system is asked once");
}
#elif VF_MODE == 3
#include "utils_common.h"
#include <sys/stat.h>
static int fail, open_, pidfd, dup_, nget;
static long want_pid, want_fd, fsz;
static int err;
long vf_syscall_(long n, long a, long b, long c) __asm__("vf_syscall");
long vf_syscall_(long n, long a, long b, long c) {
    switch (n) {
    case 186: return 4711; /* gettid */
    case 434: /* pidfd_open */
        VF_ASSERT((int)a == want_pid && b == 0, "the process named is opened");
        if (fail == 1)
            return errno = err, -1;
        open_++;
        return pidfd;
    case 438: /* pidfd_getfd */
        VF_ASSERT(open_ == 1 && (int)a == pidfd && (int)b == want_fd && (unsigned)c == 0, "the descriptor named is duplicated");
        nget++;
        if (fail == 2)
            return errno = err, -1;
        return dup_;
    default: VF_ASSERT(0, "an unexpected system call"); return -1;
    }
}
int vf_close(int fd) {
    VF_ASSERT(open_ == 1 && fd == pidfd, "what was opened is closed");
    open_--;
    return 0;
}
int vf_fstat(int fd, struct stat *st) {
    VF_ASSERT(fd == want_fd, "the file named");
    if (fail)
        return errno = err, -1;
    st->st_size = fsz;
    return 0;
}
static void run(void) {
    fail = nd_pick(3);
    want_pid = (long)nd_range(0, 1u << 22), want_fd = (long)nd_range(0, 1u << 20), fsz = (long)nd_range(0, 1ull << 62);
    pidfd = (int)nd_range(0, 1u << 20), dup_ = (int)nd_range(0, 1u << 20);
    err = nd_pick(2) ? EMFILE : EPERM;
    VF_ASSERT(utils_gettid() == 4711, "the thread's number");
    int out = -7;
    umf_result_t r = utils_duplicate_fd((int)want_pid, (int)want_fd, &out);
    VF_ASSERT(open_ == 0, "nothing stays open");
    VF_ASSERT(nget == (fail != 1), "asked once");
    if (fail)
        VF_ASSERT(r != UMF_RESULT_SUCCESS && out == -7, "a failure is reported");
    else
        VF_ASSERT(r == UMF_RESULT_SUCCESS && out == dup_, "the duplicate is returned");
    size_t sz = 5;
    int q = utils_get_file_size((int)want_fd, &sz);
    VF_ASSERT(fail ? q != 0 && sz == 5 : q == 0 && sz == (size_t)fsz, "the size of the file");
}
#else
#include "topology.h"
#include "umf_hwloc.h"
static char T[8];
static int live, nt, budget = 1, failed;
static bool refuse(void) {
    if (budget > 0 && nd_choice()) {
        budget--, failed++;
        return true;
    }
    return false;
}
static bool loaded;
int hwloc_topology_init(hwloc_topology_t *t) {
    if (refuse())
        return -1;
    VF_ASSERT(live == 0, "one topology at a time");
    live++, loaded = false;
    if (nt == 7)
        VF_LIMIT("topologies");
    *t = (hwloc_topology_t)&T[++nt];
    return 0;
}
int hwloc_topology_load(hwloc_topology_t t) {
    VF_ASSERT(live == 1 && t == (hwloc_topology_t)&T[nt], "the live topology is loaded");
    if (refuse())
        return -1;
    loaded = true;
    return 0;
}
void hwloc_topology_destroy(hwloc_topology_t t) {
    VF_ASSERT(live == 1 && t == (hwloc_topology_t)&T[nt], "the live topology is destroyed, once");
    live--;
}
static void run(void) {
    for (int i = 0; i < VF_STEPS; i++) {
        int f = failed, made = nt;
        if (nd_choice()) { /* one generation of the library */
            hwloc_topology_t t = umfGetTopology(), u = umfGetTopology();
            if (t) {
                VF_ASSERT(live == 1 && loaded && t == (hwloc_topology_t)&T[nt], "the topology is one that is loaded");
                VF_ASSERT(u == t && nt == made + 1, "the topology is made once");
                VF_REACH("topology");
            } else {
                VF_ASSERT(failed > f && live == 0, "there is a topology unless it cannot be had");
                VF_REACH("refused");
            }
        }
        umfDestroyTopology();
        VF_ASSERT(live == 0, "the topology is destroyed with the library");
    }
}
#endif
void VF_ENTRY(void) {
    run();
    VF_REACH("end");
}
