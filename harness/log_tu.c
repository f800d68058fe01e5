/* the real logger over the harness's streams, clock and error messages */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
FILE *vf_fopen(const char *p, const char *m);
int vf_fputs(const char *s, FILE *f);
int vf_fflush(FILE *f);
char *vf_strerror_r(int e, char *b, size_t n);
char *vf_getenv(const char *n);
time_t vf_time(time_t *t);
struct tm *vf_localtime_r(const time_t *t, struct tm *r);
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t);
int vf_gettid(void);
int vf_getpid(void);
#define fopen vf_fopen
#define fputs vf_fputs
#define fflush vf_fflush
#define strerror_r vf_strerror_r
#define getenv vf_getenv
#define time(x) vf_time(x)
#define localtime_r vf_localtime_r
#define strftime vf_strftime
#define utils_gettid vf_gettid
#define utils_getpid vf_getpid
#include "utils/utils_log.c"
