/* the real proxy library, its replacements of the C allocator renamed */
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <assert.h>
#include <limits.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <pthread.h>
#include "utils_concurrency.h"
#include "utils_common.h"
#include "utils_load_library.h"
#include "utils_log.h"
#include "base_alloc_linear.h"
#define malloc px_malloc
#define calloc px_calloc
#define free px_free
#define realloc px_realloc
#define aligned_alloc px_aligned_alloc
#define malloc_usable_size px_usable
#define PROXY_LIB_USES_SCALABLE_POOL 1
void *px_malloc(size_t);
void *px_calloc(size_t, size_t);
void px_free(void *);
void *px_realloc(void *, size_t);
void *px_aligned_alloc(size_t, size_t);
size_t px_usable(void *);
#include "proxy_lib/proxy_lib.c"
