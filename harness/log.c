/* U01: configuration strings, the logger and the translation helpers.
 * VF_MODE: 0 any option string, 1 logger options, 2 messages, 3 helpers. */
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include "utils_common.h"
#include "utils_log.h"
#include "vf.h"
#ifndef VF_MODE
#define VF_MODE 0
#endif
#if VF_MODE == 1 || VF_MODE == 2
/* --- the world of the logger --- */
static FILE *const FILEP = (FILE *)0x7000;
static char env[256], path[300], want_path[300];
static int has_env, opens, puts_, flushes, openfail, errlen, errtrunc, clobber;
static FILE *out, *flushed;
static char line[9000];
char *vf_getenv(const char *n) {
    VF_ASSERT(!strcmp(n, "UMF_LOG"), "the logger reads UMF_LOG");
    return has_env ? env : NULL;
}
FILE *vf_fopen(const char *p, const char *m) {
    VF_ASSERT(!strcmp(m, "a"), "the file is appended to");
    VF_ASSERT(!strcmp(p, want_path), "the file named is opened");
    opens++;
    if (openfail) {
        errno = ENOENT;
        return NULL;
    }
    return FILEP;
}
int vf_fputs(const char *s, FILE *f) {
    size_t n = strlen(s);
    VF_ASSERT(n > 0 && n < sizeof(line) && s[n - 1] == '\n', "a line is written");
    memcpy(line, s, n + 1);
    out = f;
    puts_++;
    if (clobber)
        errno = EIO;
    return 1;
}
int vf_fflush(FILE *f) {
    flushed = f;
    flushes++;
    if (clobber)
        errno = ENOSPC;
    return 0;
}
char *vf_strerror_r(int e, char *b, size_t n) {
    VF_ASSERT(e == 77 || (openfail && e == ENOENT), "the error that happened is described");
    size_t k = (size_t)errlen;
    if (k >= n) {
        k = n - 1;
        errno = ERANGE;
        errtrunc = 1;
    }
    memset(b, 'e', k);
    b[k] = 0;
    return b;
}
time_t vf_time(time_t *t) {
    (void)t;
    return 5;
}
struct tm *vf_localtime_r(const time_t *t, struct tm *r) {
    VF_ASSERT(*t == 5, "the time is now");
    memset(r, 0, sizeof(*r));
    return r;
}
size_t vf_strftime(char *b, size_t n, const char *f, const struct tm *t) {
    (void)f, (void)t;
    VF_ASSERT(n > 20, "the time fits");
    memcpy(b, "2020-01-01T00:00:00 ", 21);
    return 20;
}
int vf_gettid(void) { return 2147483647; }
int vf_getpid(void) { return 4000000; }
static void app(char *d, const char *s) {
    size_t k = strlen(d), n = strlen(s);
    memcpy(d + k, s, n + 1);
}
static const char *const LV[] = {"debug", "info", "warning", "error", "fatal"};
static const char *const LN[] = {"DEBUG", "INFO ", "WARN ", "ERROR", "FATAL"};
#endif
#if VF_MODE == 2
static char msg[9000], fn[9000];
#endif
/* --- oracle of an option string: the first element that is the option --- */
#if VF_MODE == 0
static int oracle(const char *s, const char *o, int arg) {
    size_t k = strlen(o);
    for (size_t i = 0;; i++) {
        if (i == 0 || s[i - 1] == ';') {
            size_t j = 0;
            while (j < k && s[i + j] == o[j])
                j++;
            if (j == k && (arg ? s[i + k] == ',' : (s[i + k] == ';' || s[i + k] == 0)))
                return (int)i;
        }
        if (!s[i])
            return -1;
    }
}
#endif
#if VF_MODE == 3
static umf_result_t none(unsigned f, unsigned *o) {
    (void)f, (void)o;
    return UMF_RESULT_ERROR_NOT_SUPPORTED;
}
#endif
void VF_ENTRY(void) {
#if VF_MODE == 0
    static const char AB[] = {0, 'a', 'b', ';', ','};
    static const char *const OPT[] = {"a", "ab", "aba"};
    char s[VF_LEN + 1];
    for (int i = 0; i < VF_LEN; i++)
        s[i] = (char)nd_range(0, 255);
    s[VF_LEN] = 0;
    (void)AB;
    const char *o = OPT[nd_pick(3)], *x = (const char *)1;
    int arg = (int)nd_choice();
    const char *r = utils_parse_var(s, o, arg ? &x : NULL);
    int w = oracle(s, o, arg);
    VF_ASSERT(w < 0 ? r == NULL : r == s + w, "an option is found exactly where it is");
    VF_ASSERT(!(arg && r) || x == r + strlen(o) + 1, "the argument follows the option");
    if (r)
        VF_REACH("found");
    else
        VF_REACH("not found");
#elif VF_MODE == 1
    /* up to six options in some order, well spelled or not */
    int outp = (int)nd_pick(6), lv = 3, fl = 3, ts = 0, pid = 0;
    static const char *const O[] = {"output:stdout", "output:stderr", "output:file,dir/a,b:c.log", "output:file", "xoutput:stdout", "output:file,"};
    unsigned a = nd_pick(3), b = nd_pick(3), rot = nd_pick(2) * 3;
    unsigned l = nd_pick(7), f = nd_pick(7);
    has_env = 1;
    for (unsigned i = 0; i < 4; i++) {
        switch ((i + rot) % 4) {
        case 0:
            app(env, O[outp]);
            if (outp == 5)
                for (int k = 0; k < VF_PATH; k++)
                    app(env, "p");
            break;
        case 1:
            if (l < 6) {
                app(env, "level:");
                app(env, l < 5 ? LV[l] : "verbose");
            }
            break;
        case 2:
            if (f < 6) {
                app(env, "flush:");
                app(env, f < 5 ? LV[f] : "warn");
            }
            break;
        case 3:
            app(env, a == 0 ? "timestamp:yes" : a == 1 ? "timestamp:no" : "timestamp:");
            app(env, ";");
            app(env, b == 0 ? "pid:yes" : b == 1 ? "pid:no" : "xpid:yes");
            break;
        }
        if (i < 3)
            app(env, ";");
    }
    if (outp == 2)
        app(want_path, "dir/a,b:c.log");
    if (outp == 5)
        for (int k = 0; k < VF_PATH; k++)
            app(want_path, "p");
    openfail = (outp == 2 || outp == 5) && nd_choice();
    (void)path;
    FILE *dst = outp == 0 ? stdout : outp == 1 ? stderr : (outp == 2 || outp == 5) && !openfail ? FILEP : NULL;
    if (dst) {
        lv = l < 5 ? (int)l : 3;
        fl = f < 5 ? (int)f : 3;
        ts = a == 0, pid = b == 0;
    }
    utils_log_init();
    VF_ASSERT(opens == (outp == 2 || outp == 5), "a file is opened if one is named");
    VF_ASSERT((puts_ > 0) == (dst == NULL || lv <= 1), "the logger says when it starts or cannot");
    VF_ASSERT(!puts_ || out == (dst ? dst : stderr), "the logger says it where it can");
    for (int i = 0; i < 5; i++) {
        puts_ = flushes = 0;
        utils_log((utils_log_level_t)i, "fun", "%s", "text");
        int want = i >= lv && (dst || i == 4);
        VF_ASSERT(puts_ == want, "messages of the level and above are written");
        if (want) {
            char w[200] = "[";
            VF_ASSERT(out == (dst ? dst : stderr), "messages go to the output named");
            VF_ASSERT((flushes == 1) == (i >= fl) && (!flushes || flushed == out), "messages of the flush level and above are flushed");
            if (ts)
                app(w, "2020-01-01T00:00:00 ");
            if (pid)
                app(w, "PID:4000000 TID:2147483647 ");
            app(w, LN[i]);
            app(w, " UMF] fun: text\n");
            VF_ASSERT(!strcmp(line, w), "a message says what it is asked to");
            VF_REACH("message");
        } else
            VF_ASSERT(!flushes, "nothing is flushed");
    }
#elif VF_MODE == 2
    /* a message of any length */
    has_env = 1;
    app(env, "output:stderr;pid:yes;timestamp:yes");
    utils_log_init();
    puts_ = 0;
    unsigned fl = nd_choice() ? 1 : 200;
    unsigned k = nd_pick(VF_LENS), n = k < 3 ? 1 + k * 100 : 8192 - fl - 2 - 8 + (k - 3);
    int pe = nd_choice();
    if (pe)
        errlen = (int)(nd_pick(3) == 0 ? 1 : nd_choice() ? 20 : 1500);
    memset(fn, 'f', fl);
    memset(msg, 'm', n);
    clobber = 1;
    errno = 77;
    if (pe)
        utils_plog(LOG_FATAL, fn, "%s", msg);
    else
        utils_log(LOG_FATAL, fn, "%s", msg);
    VF_ASSERT(errno == 77, "logging does not change errno");
    VF_ASSERT(puts_ == 1, "the message is written once");
    const char *p = strstr(line, "UMF] ");
    VF_ASSERT(p != NULL, "the message has its header");
    p += 5;
    /* expected text: fn ": " msg [": " error], cut to 8191 */
    size_t el = pe ? (errlen > 1023 ? 1023 : errlen) : 0;
    size_t full = fl + 2 + n + (pe ? 2 + el : 0);
    size_t i = 0;
    for (; i < 8191 && i < full; i++) {
        char c = i < fl ? 'f' : i == fl ? ':' : i == fl + 1 ? ' ' : i < fl + 2 + n ? 'm' : i == fl + 2 + n ? ':' : i == fl + 3 + n ? ' ' : 'e';
        if (p[i] != c)
            break;
    }
    /* an error that does not fit at all may be left out, with a remark */
    VF_ASSERT(i == full || i == 8191 || (pe && i >= fl + 2 + n), "the message is complete as far as it fits");
    VF_ASSERT((strstr(p + i, "[truncated...]") != NULL) == (i < full || errtrunc), "what is cut says so");
    VF_ASSERT(i < full || errtrunc || (p[i] == '\n' && !p[i + 1]), "nothing follows the message");
    VF_REACH(i < full ? "cut" : "whole");
#else
    switch (nd_pick(5)) {
    case 0: {
        unsigned rest = (unsigned)nd_range(0, (1u << 28) - 1), lo = nd_pick(16), in = lo + 16 * rest, o = 12345;
        umf_result_t r = utils_translate_mem_protection_flags(in, &o);
        unsigned w = ((lo & UMF_PROTECTION_READ) ? PROT_READ : 0) | ((lo & UMF_PROTECTION_WRITE) ? PROT_WRITE : 0) | ((lo & UMF_PROTECTION_EXEC) ? PROT_EXEC : 0);
        bool ok = rest == 0;
        VF_ASSERT((r == UMF_RESULT_SUCCESS) == ok, "exactly the flags that exist are translated");
        VF_ASSERT(ok ? o == w : (o == 12345 && r == UMF_RESULT_ERROR_INVALID_ARGUMENT), "flags mean the same to the system");
        o = 12345;
        unsigned in0 = in;
        in = lo & 7;
        r = utils_translate_flags(in, 8, none, &o);
        VF_ASSERT(in == 0 ? (r == UMF_RESULT_SUCCESS && o == 0) : r != UMF_RESULT_SUCCESS, "a flag that cannot be translated is refused");
        in = in0;
        o = 12345;
        r = utils_translate_mem_visibility_flag((umf_memory_visibility_t)in, &o);
        VF_ASSERT(r == UMF_RESULT_SUCCESS ? o == (in == UMF_MEM_MAP_PRIVATE ? MAP_PRIVATE : MAP_SHARED) : o == 12345, "visibility means the same to the system");
        VF_ASSERT((r == UMF_RESULT_SUCCESS) == (in == UMF_MEM_MAP_PRIVATE || in == UMF_MEM_MAP_SHARED), "exactly the kinds that exist are translated");
        break;
    }
    case 4: {
        umf_result_t r;
        int e = (int)nd_range(0, 0x7fffffff);
        r = utils_errno_to_umf_result(e);
        VF_ASSERT(r == (e == EBADF || e == EINVAL || e == ESRCH || e == EPERM ? UMF_RESULT_ERROR_INVALID_ARGUMENT : e == EMFILE || e == ENOMEM ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY
                        : e == ENODEV || e == ENOSYS || e == ENOTSUP ? UMF_RESULT_ERROR_NOT_SUPPORTED : UMF_RESULT_ERROR_UNKNOWN), "an error of the system keeps its meaning");
        break;
    }
    case 1: {
        static const unsigned char SH[] = {0, 1, 12, 16, 21, 39};
        unsigned sh = SH[nd_pick(6)];
        size_t al = (size_t)1 << sh, q = nd_range(1, (1ull << 46) >> sh), off = sh ? nd_range(0, al - 1) : 0, n = nd_range(0, 1ull << 46);
        uintptr_t a = q * al + off;
        void *p = (void *)a;
        size_t s = n;
        utils_align_ptr_down_size_up(&p, &s, al);
        VF_ASSERT((uintptr_t)p == q * al, "a pointer is aligned down");
        VF_ASSERT((uintptr_t)p + s >= a + n && s - (n + off) < al, "the range still covers what it did, and no more than it must");
        VF_ASSERT(s % al == 0, "the size is aligned up");
        p = (void *)a, s = n;
        VF_ASSUME(n >= al);
        utils_align_ptr_up_size_down(&p, &s, al);
        VF_ASSERT((uintptr_t)p == q * al + (off ? al : 0), "a pointer is aligned up");
        VF_ASSERT((uintptr_t)p + s == a + n, "the range still ends where it did");
        break;
    }
    case 2: {
        char in[6], o[6] = "zzzzz";
        for (int i = 0; i < 5; i++)
            in[i] = (char)nd_range(0, 255);
        in[5] = 0;
        size_t max = 1 + nd_pick(5), n = strlen(in);
        int r = utils_copy_path(in, o, max);
        VF_ASSERT((r == 0) == (n < max), "a path is taken exactly if it fits");
        VF_ASSERT(r ? o[0] == 'z' : !strcmp(in, o), "a path is copied whole");
        VF_ASSERT(o[max] == (max < 5 ? 'z' : 0), "nothing is written behind the path");
        break;
    }
    case 3: {
        char t[] = "size.threshold=00000";
        size_t b = strlen("size.threshold="), w = 0;
        for (int i = 0; i < 4; i++)
            t[b + i] = (char)nd_range(0, 255);
        t[b + 4] = 0;
        long r = utils_get_size_threshold(t);
        bool dig = t[b] >= '0' && t[b] <= '9';
        for (size_t i = b; t[i] >= '0' && t[i] <= '9'; i++)
            w = w * 10 + (size_t)(t[i] - '0');
        VF_ASSERT(r == (dig ? (long)w : -1), "the threshold is the number given");
        VF_ASSERT(utils_get_size_threshold(NULL) == 0, "without a threshold there is none");
    }
    }
    VF_REACH("helpers");
#endif
    VF_REACH("end");
}
