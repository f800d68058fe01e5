/* Contract model of anonymous memory from the OS: page-aligned zeroed blocks
 * that do not touch, or refusal; partial unmapping of a suffix. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#ifdef VF_SYMX_RUN
#endif
void *symx_aligned_alloc(size_t al, size_t n);
#ifndef OS_BACK
#define OS_BACK 65536
#endif
#ifndef OSMAX
#define OSMAX 16
#endif
static uintptr_t os_base[OSMAX];
static size_t os_len[OSMAX];
static bool os_live[OSMAX];
static int os_n, os_budget; /* budget: refusals still possible */
static int os_refused;
void os_unmapped(uintptr_t a, size_t n);
void *utils_mmap(void *hint, size_t length, int prot, int flag, int fd,
                 size_t fd_offset) {
    (void)hint, (void)prot, (void)flag, (void)fd, (void)fd_offset;
    if (os_budget > 0 && nd_choice()) {
        os_budget--;
        os_refused++;
        return NULL;
    }
    VF_ASSERT(length != 0, "the OS is never asked for nothing");
    if (length > (1ull << 33)) {
        os_refused++;
        return NULL;
    }
    int k = os_n;
    if (k >= OSMAX)
        for (k = 0; k < OSMAX && os_live[k]; k++)
            ;
    if (k >= OSMAX)
        VF_LIMIT("OS blocks");
    void *p = symx_aligned_alloc(4096, OS_BACK);
    memset(p, 0, OS_BACK);
    os_base[k] = (uintptr_t)p;
    os_len[k] = length;
    os_live[k] = true;
    os_n += k == os_n;
    return p;
}
int utils_munmap(void *addr, size_t length) {
    uintptr_t a = (uintptr_t)addr;
    for (int i = 0; i < os_n; i++)
        if (os_live[i] && a >= os_base[i] && a < os_base[i] + OS_BACK) {
            VF_ASSERT((a - os_base[i] + length == os_len[i]) &
                          (a % 4096 == 0) & (length > 0),
                      "memory goes back to the OS as it was obtained");
            os_unmapped(a, length);
            if (a == os_base[i]) {
                os_live[i] = false;
                free(addr);
            } else
                os_len[i] = a - os_base[i];
            return 0;
        }
    VF_ASSERT(0, "only memory obtained from the OS goes back to it, once");
    return 0;
}
static int os_block(uintptr_t p) {
    for (int i = 0; i < os_n; i++)
        if (os_live[i] && p >= os_base[i] && p < os_base[i] + OS_BACK)
            return i;
    return -1;
}
static int os_nlive(void) {
    int k = 0;
    for (int i = 0; i < os_n; i++)
        k += os_live[i];
    return k;
}
