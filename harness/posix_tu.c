/* the real utilities, without the two functions the model of the OS provides */
#define utils_mmap real_utils_mmap
#define utils_munmap real_utils_munmap
#include "utils/utils_posix_common.c"
