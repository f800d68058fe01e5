/* Contract model of the kernel's memory mappings and files, for units compiled
 * with the system calls renamed to vf_* (specs.py, SYSCALLS).  Mappings are
 * page-aligned intervals at any address the solver likes that touch no other
 * live mapping; unmapping cuts intervals; files are identities with sizes. */
#ifndef KERNEL_MODEL_H
#define KERNEL_MODEL_H 1
#include "vf.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#ifndef KMAPS
#define KMAPS 12
#endif
#define KFDS 12
#define KPG 4096ull
#ifndef KLIM
#define KLIM (1ull << 32)
#endif
static struct kmap {
    uintptr_t a, e; /* [a, e) */
    int file, prot, flags;
    uint64_t off;
    bool live;
} K[KMAPS];
static int nk, kbudget, krefused, kmapcalls;
static int kprotect; /* mappings below this index must not be cut now */
static struct kfd {
    int file;
    bool open;
} KF[KFDS];
static uint64_t kfsize[KFDS];
static int nkfile = 1, kfd_live;
static int kdax;            /* what the file at kpath is: 0 ordinary, 1 on FSDAX, 2 a device */
static const char *kpath = "/dev/dax0.0";
static int kpath_file; /* 0: not there yet */
static char kshm_name[300]; /* the one shared memory object */
static int kshm_file;       /* 0: none */
static bool kfail(void) {
    if (kbudget > 0 && nd_choice()) {
        kbudget--;
        krefused++;
        return true;
    }
    return false;
}
VF_QUIET static int kfd_new(int file) {
    for (int i = 3; i < KFDS; i++)
        if (!KF[i].open) {
            KF[i].file = file;
            KF[i].open = true;
            kfd_live++;
            return i;
        }
    VF_LIMIT("open files");
    return -1;
}
VF_QUIET static bool kfd_ok(int fd) { return fd >= 3 && fd < KFDS && KF[fd].open; }
VF_QUIET void *vf_mmap(void *hint, size_t len, int prot, int flags, int fd, off_t off) {
    kmapcalls++;
    (void)hint;
    int file = 0;
    if (!(flags & MAP_ANONYMOUS)) {
        VF_ASSERT(kfd_ok(fd), "only open files are mapped");
        file = KF[fd].file;
    }
    if ((len == 0) | ((off & 4095) != 0) | (off < 0)) {
        krefused++;
        errno = EINVAL;
        return MAP_FAILED;
    }
    bool dax = file && file == kpath_file && kdax;
    if ((flags & MAP_SYNC) && !dax) {
        errno = EOPNOTSUPP;
        return MAP_FAILED;
    }
    if (dax && kdax == 2 && (((uint64_t)off | len) & ((2ull << 20) - 1)) != 0) {
        krefused++;
        errno = EINVAL;
        return MAP_FAILED;
    }
    if ((len > KLIM) || kfail()) {
        krefused++;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    size_t up = (len + KPG - 1) & ~(KPG - 1);
    if (file)
        VF_ASSERT(((uint64_t)off <= kfsize[file]) & (len <= kfsize[file] - (uint64_t)off), "a file mapping lies inside the file");
    if (nk == KMAPS)
        VF_LIMIT("mappings");
    uintptr_t a; /* 2^45 .. 2^46 */
    if (dax) /* files on DAX are mapped at the page size of the device */
        a = nd_range(1ull << 24, 1ull << 25) << 21;
    else
        a = nd_range(1ull << 33, 1ull << 34) << 12;
    for (int i = 0; i < nk; i++)
        VF_ASSUME(!K[i].live | (a + up <= K[i].a) | (a >= K[i].e));
    K[nk++] = (struct kmap){a, a + up, file, prot, (flags & 3) == MAP_PRIVATE ? MAP_PRIVATE : MAP_SHARED, (uint64_t)off, true};
    return (void *)a;
}
/* c ? x : y without a branch */
VF_QUIET static uint64_t ksel(bool c, uint64_t x, uint64_t y) { return c ? x : y; }
VF_QUIET static void kcut(int i, uintptr_t a, uintptr_t e) {
    VF_ASSERT(i >= kprotect, "an allocation does not unmap memory in use");
    if (a <= K[i].a && e >= K[i].e) {
        K[i].live = false;
    } else if (a <= K[i].a) {
        K[i].off += e - K[i].a;
        K[i].a = e;
    } else if (e >= K[i].e) {
        K[i].e = a;
    } else {
        if (nk == KMAPS)
            VF_LIMIT("mappings");
        K[nk] = K[i];
        K[nk].off += e - K[i].a;
        K[nk++].a = e;
        K[i].e = a;
    }
}
/* is [a, a+n) covered by live mappings? (branch-free; at most two of them) */
VF_QUIET static bool kcovered(uintptr_t a, uint64_t n) {
    bool r = false;
    for (int i = 0; i < nk; i++)
        r |= K[i].live & (a >= K[i].a) & (a + n <= K[i].e);
    for (int i = 0; i < nk; i++)
        for (int j = 0; j < nk; j++)
            r |= K[i].live & K[j].live & (K[i].e == K[j].a) & (a >= K[i].a) & (a < K[i].e) & (a + n <= K[j].e);
    return r;
}
VF_QUIET int vf_munmap(void *p, size_t len) {
    uintptr_t a = (uintptr_t)p;
    if ((len == 0) | ((a & 4095) != 0)) {
        errno = EINVAL;
        return -1;
    }
    uintptr_t e = (a + len + KPG - 1) & ~(KPG - 1);
    VF_ASSERT(e > a, "unmapped ranges do not wrap");
    VF_ASSERT(kcovered(a, e - a), "only mapped memory is unmapped");
    int n = nk;
    for (int i = 0; i < n; i++)
        if (K[i].live && (a < K[i].e) & (e > K[i].a))
            kcut(i, a, e);
    return 0;
}
/* the file position of an address: (file << 56 | offset), 0 if anonymous */
VF_QUIET static uint64_t kpos(uintptr_t x) {
    uint64_t r = 0;
    for (int i = 0; i < nk; i++)
        if (K[i].live && K[i].file)
            r = ksel((x >= K[i].a) & (x < K[i].e), ((uint64_t)K[i].file << 56) + (K[i].off + (x - K[i].a)), r);
    return r;
}
/* live mappings, of those with exactly these bounds */
VF_QUIET static int kcount(void) {
    int n = 0;
    for (int i = 0; i < nk; i++)
        n += K[i].live;
    return n;
}
VF_QUIET static bool kexact(uintptr_t a, uintptr_t e) {
    bool r = false;
    for (int i = 0; i < nk; i++)
        r |= K[i].live & (K[i].a == a) & (K[i].e == e);
    return r;
}
int vf_madvise(void *p, size_t len, int adv) {
    if (kfail()) {
        errno = EINVAL;
        return -1;
    }
    VF_ASSERT((adv == MADV_DONTNEED) | (adv == MADV_FREE), "purging uses purge advice");
    (void)p, (void)len;
    return 0;
}
int vf_ftruncate(int fd, off_t n) {
    VF_ASSERT(kfd_ok(fd), "only open files are resized");
    if (kfail()) {
        errno = EFBIG;
        return -1;
    }
    kfsize[KF[fd].file] = (uint64_t)n;
    return 0;
}
int vf_posix_fallocate(int fd, off_t off, off_t n) {
    VF_ASSERT(kfd_ok(fd), "only open files are resized");
    if (kfail())
        return ENOSPC;
    if ((uint64_t)(off + n) > kfsize[KF[fd].file])
        kfsize[KF[fd].file] = (uint64_t)(off + n);
    return 0;
}
int vf_close(int fd) {
    VF_ASSERT(kfd_ok(fd), "only open files are closed, once");
    KF[fd].open = false;
    kfd_live--;
    return 0;
}
int vf_open_fixed(const char *name, int flags, mode_t mode) __asm__("vf_open");
VF_QUIET int vf_open_fixed(const char *name, int flags, mode_t mode) {
    (void)mode;
    if (strcmp(name, kpath) != 0 || (!kpath_file && !(flags & O_CREAT)) || kfail()) {
        errno = ENOENT;
        return -1;
    }
    if (!kpath_file) {
        kpath_file = nkfile++;
        kfsize[kpath_file] = 0;
    }
    return kfd_new(kpath_file);
}
int vf_stat(const char *name, struct stat *st) {
    if (strcmp(name, kpath) != 0 || !kpath_file || kfail()) {
        errno = ENOENT;
        return -1;
    }
    st->st_mode = kdax == 2 ? S_IFCHR : S_IFREG;
    st->st_size = (off_t)kfsize[kpath_file];
    return 0;
}
int vf_shm_open(const char *name, int flags, mode_t mode) {
    (void)mode;
    bool same = kshm_file && !strcmp(name[0] == '/' ? name + 1 : name, kshm_name);
    if (kfail()) {
        errno = EMFILE;
        return -1;
    }
    if (flags & O_CREAT) {
        if (same && (flags & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        if (!same) {
            strcpy(kshm_name, name[0] == '/' ? name + 1 : name);
            kshm_file = nkfile++;
            kfsize[kshm_file] = 0;
        }
        return kfd_new(kshm_file);
    }
    if (!same) {
        errno = ENOENT;
        return -1;
    }
    return kfd_new(kshm_file);
}
int vf_shm_unlink(const char *name) {
    if (kshm_file && !strcmp(name[0] == '/' ? name + 1 : name, kshm_name)) {
        kshm_file = 0;
        return 0;
    }
    errno = ENOENT;
    return -1;
}
#define KPID 4242
pid_t vf_getpid(void) { return KPID; }
long vf_syscall_fixed(long n, long a, long b, long c) __asm__("vf_syscall");
VF_QUIET long vf_syscall_fixed(long n, long a, long b, long c) {
    (void)c;
    switch (n) {
    case 447: /* memfd_secret */
    case 319: /* memfd_create */
        if (kfail()) {
            errno = n == 447 ? ENOSYS : EMFILE;
            return -1;
        }
        kfsize[nkfile] = 0;
        return kfd_new(nkfile++);
    case 434: /* pidfd_open */
        if ((int)a != KPID || kfail()) {
            errno = ESRCH;
            return -1;
        }
        return kfd_new(-KPID);
    case 438: /* pidfd_getfd */
        VF_ASSERT(kfd_ok((int)a) && KF[a].file == -KPID, "descriptors are duplicated from a process");
        if (!kfd_ok((int)b) || kfail()) {
            errno = EBADF;
            return -1;
        }
        return kfd_new(KF[(int)b].file);
    case 186:
        return KPID;
    }
    VF_LIMIT("system call");
    return -1;
}
#endif
