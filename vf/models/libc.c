#include <errno.h>
/* libc string functions for the symbolic runs (the native replay uses the
 * real ones). */
#include <stddef.h>
#include <stdint.h>
#pragma weak getenv
#pragma weak sysconf
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
size_t strnlen(const char *s, size_t m) {
    size_t n = 0;
    while (n < m && s[n])
        n++;
    return n;
}
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b)
        a++, b++;
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) {
        if (*a != *b)
            return (unsigned char)*a - (unsigned char)*b;
        if (!*a)
            break;
    }
    return 0;
}
int memcmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = x, *b = y;
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
void *memchr(const void *s, int c, size_t n) {
    const unsigned char *a = s;
    for (size_t i = 0; i < n; i++)
        if (a[i] == (unsigned char)c)
            return (void *)(a + i);
    return NULL;
}
char *strcpy(char *d, const char *s) {
    size_t i = 0;
    do
        d[i] = s[i];
    while (s[i++]);
    return d;
}
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++)
        d[i] = s[i];
    for (; i < n; i++)
        d[i] = 0;
    return d;
}
char *strncat(char *d, const char *s, size_t n) {
    size_t k = strlen(d), i = 0;
    for (; i < n && s[i]; i++)
        d[k + i] = s[i];
    d[k + i] = 0;
    return d;
}
char *strcat(char *d, const char *s) {
    strcpy(d + strlen(d), s);
    return d;
}
char *strchr(const char *s, int c) {
    for (;; s++) {
        if (*s == (char)c)
            return (char *)s;
        if (!*s)
            return NULL;
    }
}
char *strrchr(const char *s, int c) {
    const char *r = NULL;
    for (;; s++) {
        if (*s == (char)c)
            r = s;
        if (!*s)
            return (char *)r;
    }
}
char *strstr(const char *h, const char *n) {
    size_t k = strlen(n);
    for (;; h++) {
        if (strncmp(h, n, k) == 0)
            return (char *)h;
        if (!*h)
            return NULL;
    }
}
size_t strspn(const char *s, const char *a) {
    size_t n = 0;
    while (s[n] && strchr(a, s[n]))
        n++;
    return n;
}
size_t strcspn(const char *s, const char *a) {
    size_t n = 0;
    while (s[n] && !strchr(a, s[n]))
        n++;
    return n;
}
char *strtok_r(char *s, const char *d, char **save) {
    if (!s)
        s = *save;
    s += strspn(s, d);
    if (!*s) {
        *save = s;
        return NULL;
    }
    char *e = s + strcspn(s, d);
    if (*e)
        *e++ = 0;
    *save = e;
    return s;
}
static char *strtok_at;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &strtok_at); }
char *strpbrk(const char *s, const char *a) {
    s += strcspn(s, a);
    return *s ? (char *)s : NULL;
}
char *strsep(char **sp, const char *d) {
    char *s = *sp;
    if (!s)
        return NULL;
    char *e = s + strcspn(s, d);
    *sp = *e ? e + 1 : NULL;
    if (*e)
        *e = 0;
    return s;
}
char *stpcpy(char *d, const char *s) {
    while ((*d = *s))
        d++, s++;
    return d;
}
int tolower(int);
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y)
            return x - y;
        if (!x)
            break;
    }
    return 0;
}
int strcasecmp(const char *a, const char *b) {
    return strncasecmp(a, b, (size_t)-1);
}
char *strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = malloc(n + 1);
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}
char *strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    if (p)
        memcpy(p, s, n);
    return p;
}
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    char *a = b;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--)
            for (size_t k = 0; k < w; k++) {
                char t = a[j * w + k];
                a[j * w + k] = a[(j - 1) * w + k];
                a[(j - 1) * w + k] = t;
            }
}

static const char *env_n[8], *env_v[8];
int setenv(const char *n, const char *v, int ow) {
    (void)ow;
    for (int i = 0; i < 8; i++)
        if (!env_n[i] || !strcmp(env_n[i], n)) {
            env_n[i] = n;
            env_v[i] = v;
            return 0;
        }
    return -1;
}
char *getenv(const char *n) {
    for (int i = 0; i < 8 && env_n[i]; i++)
        if (!strcmp(env_n[i], n))
            return (char *)env_v[i];
    return NULL;
}
unsigned long strtoul(const char *s, char **end, int base) {
    const char *p = s, *q;
    unsigned long v = 0;
    int neg = 0, over = 0;
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        p++;
    if (*p == '+' || *p == '-')
        neg = *p++ == '-';
    if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && ((p[2] >= '0' && p[2] <= '9') || ((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f'))) {
        p += 2;
        base = 16;
    } else if (base == 0)
        base = *p == '0' ? 8 : 10;
    for (q = p;; q++) {
        unsigned d = *q >= '0' && *q <= '9' ? *q - '0' : *q >= 'a' && *q <= 'z' ? *q - 'a' + 10 : *q >= 'A' && *q <= 'Z' ? *q - 'A' + 10 : 99;
        if (d >= (unsigned)base)
            break;
        if (v > (~0ul - d) / base)
            over = 1;
        v = v * base + d;
    }
    if (end)
        *end = (char *)(q == p ? s : q);
    return over ? ~0ul : neg ? -v : v;
}
unsigned long long strtoull(const char *s, char **end, int base) {
    return strtoul(s, end, base);
}
long strtol(const char *s, char **end, int base) {
    const char *p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        p++;
    int neg = *p == '-';
    if (*p == '+' || *p == '-')
        p++;
    char *e;
    /* a second sign is no number */
    unsigned long v = *p == '+' || *p == '-' || *p == ' ' || (*p >= 9 && *p <= 13) ? (e = (char *)p, 0) : strtoul(p, &e, base);
    if (end)
        *end = e == p ? (char *)s : e;
    if (v > (1ul << 63) - 1 + neg) {
        errno = ERANGE;
        return neg ? (long)(1ul << 63) : (long)((1ul << 63) - 1);
    }
    return neg ? (long)-v : (long)v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long sysconf(int n) {
    (void)n;
    return 4096;
}
/* the names glibc redirects to */
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#pragma weak strerror_r
char *strerror_r(int e, char *b, size_t n) {
    (void)e, (void)b, (void)n;
    return "error";
}
/* the "C" locale */
static unsigned short ctype_tab[384];
static const unsigned short *ctype_p;
const unsigned short **__ctype_b_loc(void) {
    if (!ctype_p) {
        for (int c = 0; c < 128; c++) {
            int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13);
            int pr = c >= 32 && c < 127, hex = di || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
            ctype_tab[128 + c] = (up << 8) | (lo << 9) | ((up | lo) << 10) | (di << 11) | (hex << 12) | (sp << 13) | (pr << 14) | ((pr && c != 32) << 15) |
                                 ((c == ' ' || c == 9) << 0) | ((c < 32 || c == 127) << 1) | ((pr && c != 32 && !up && !lo && !di) << 2) | ((up | lo | di) << 3);
        }
        ctype_p = ctype_tab + 128;
    }
    return &ctype_p;
}
long atol(const char *s) { return strtol(s, NULL, 10); }
/* printf to a buffer: %% c s d i u x X p, flags - 0, width, precision, l h z j */
#include <stdarg.h>
#include <stdio.h>
#pragma weak stdout
#pragma weak stderr
#pragma weak vsnprintf
FILE *stdout = (FILE *)0x7010, *stderr = (FILE *)0x7020;
#pragma weak snprintf
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    size_t k = 0;
#define PUT(ch)                                                                \
    do {                                                                       \
        char ch_ = (ch);                                                       \
        if (k + 1 < n)                                                         \
            b[k] = ch_;                                                        \
        k++;                                                                   \
    } while (0)
    for (; *f; f++) {
        if (*f != '%') {
            PUT(*f);
            continue;
        }
        f++;
        int left = 0, zero = 0, width = 0, prec = -1, lng = 0;
        for (;; f++) {
            if (*f == '-')
                left = 1;
            else if (*f == '0')
                zero = 1;
            else
                break;
        }
        if (*f == '*')
            width = va_arg(ap, int), f++;
        while (*f >= '0' && *f <= '9')
            width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*')
                prec = va_arg(ap, int), f++;
            while (*f >= '0' && *f <= '9')
                prec = prec * 10 + (*f++ - '0');
        }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h')
            lng += *f++ != 'h';
        char t[32];
        const char *s = t;
        size_t m = 0;
        switch (*f) {
        case '%': t[m++] = '%'; break;
        case 'c': t[m++] = (char)va_arg(ap, int); break;
        case 's':
            s = va_arg(ap, const char *);
            if (!s)
                s = "(null)";
            m = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
            break;
        default: {
            int neg = 0, base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10, i = 32;
            uint64_t v;
            if (*f == 'd' || *f == 'i') {
                int64_t d = lng ? va_arg(ap, long) : va_arg(ap, int);
                neg = d < 0;
                v = neg ? 0 - (uint64_t)d : (uint64_t)d;
            } else
                v = lng || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            do {
                int dg = (int)(v % (uint64_t)base);
                t[--i] = (char)(dg < 10 ? '0' + dg : (*f == 'X' ? 'A' : 'a') + dg - 10);
                v /= (uint64_t)base;
            } while (v);
            if (*f == 'p')
                t[--i] = 'x', t[--i] = '0';
            if (neg)
                t[--i] = '-';
            s = t + i;
            m = (size_t)(32 - i);
        }
        }
        for (size_t i = m; !left && i < (size_t)width; i++)
            PUT(zero ? '0' : ' ');
        for (size_t i = 0; i < m; i++)
            PUT(s[i]);
        for (size_t i = m; left && i < (size_t)width; i++)
            PUT(' ');
    }
    if (n)
        b[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
