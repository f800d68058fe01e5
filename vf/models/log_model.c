/* Logging is outside every property: empty bodies. */
#include "utils_log.h"
int vf_log_inits;
void utils_log_init(void) { vf_log_inits++; }
void utils_log(utils_log_level_t level, const char *func, const char *format,
               ...) {
    (void)level;
    (void)func;
    (void)format;
}
void utils_plog(utils_log_level_t level, const char *func, const char *format,
                ...) {
    (void)level;
    (void)func;
    (void)format;
}
