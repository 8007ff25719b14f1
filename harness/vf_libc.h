/*
 * vf_libc.h - bodies for the libc functions the analysed code calls (or that
 * a rewrite of it may call). Frama-C's own contracts still supply
 * the preconditions that are checked at each call site.
 */
#ifndef VF_LIBC_H
#define VF_LIBC_H 1

/* <ctype.h>, "C" locale; passing anything but EOF or an unsigned char value is
 * undefined behaviour, and is reported */
#define __FC_CTYPE 1
#define VF_CT(name, cond) \
    /*@ requires c_uchar_or_eof: 0 <= c <= 255 || c == -1; assigns \result \from c; */ \
    int name(int c); \
    int name(int c) { if (cond) return 1; return 0; }

VF_CT(isspace,  c == ' ' || (c >= 9 && c <= 13))
VF_CT(isblank,  c == ' ' || c == '\t')
VF_CT(isdigit,  c >= '0' && c <= '9')
VF_CT(isupper,  c >= 'A' && c <= 'Z')
VF_CT(islower,  c >= 'a' && c <= 'z')
VF_CT(isalpha,  (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
VF_CT(isalnum,  (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
VF_CT(isxdigit, (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))
VF_CT(iscntrl,  (c >= 0 && c < 32) || c == 127)
VF_CT(isprint,  c >= 32 && c < 127)
VF_CT(isgraph,  c > 32 && c < 127)
VF_CT(ispunct,  (c > 32 && c < '0') || (c > '9' && c < 'A') || (c > 'Z' && c < 'a') || (c > 'z' && c < 127))
/*@ requires c_uchar_or_eof: 0 <= c <= 255 || c == -1; assigns \result \from c; */
int toupper(int c);
int toupper(int c) { if (c >= 'a' && c <= 'z') return c - 32; return c; }
/*@ requires c_uchar_or_eof: 0 <= c <= 255 || c == -1; assigns \result \from c; */
int tolower(int c);
int tolower(int c) { if (c >= 'A' && c <= 'Z') return c + 32; return c; }

int
memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) {
        int d = (int)x[i] - (int)y[i];
        if (d < 0) return -1;
        if (d > 0) return 1;
    }
    return 0;
}

int
strcmp(const char *a, const char *b)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (;; x++, y++) {
        int d = (int)*x - (int)*y;
        if (d < 0) return -1;
        if (d > 0) return 1;
        if (!*x) return 0;
    }
}

int
strncmp(const char *a, const char *b, size_t n)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (; n > 0; x++, y++, n--) {
        int d = (int)*x - (int)*y;
        if (d < 0) return -1;
        if (d > 0) return 1;
        if (!*x) return 0;
    }
    return 0;
}

static int vf_lc(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }

int
strcasecmp(const char *a, const char *b)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (;; x++, y++) {
        int d = vf_lc(*x) - vf_lc(*y);
        if (d < 0) return -1;
        if (d > 0) return 1;
        if (!*x) return 0;
    }
}

int
strncasecmp(const char *a, const char *b, size_t n)
{
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (; n > 0; x++, y++, n--) {
        int d = vf_lc(*x) - vf_lc(*y);
        if (d < 0) return -1;
        if (d > 0) return 1;
        if (!*x) return 0;
    }
    return 0;
}

char *
strcpy(char *d, const char *s)
{
    size_t i = 0;
    for (; s[i]; i++) d[i] = s[i];
    d[i] = 0;
    return d;
}

char *
strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}

char *
stpcpy(char *d, const char *s)
{
    for (; *s; s++, d++) *d = *s;
    *d = 0;
    return d;
}

char *
strcat(char *d, const char *s)
{
    strcpy(d + strlen(d), s);
    return d;
}

char *
strncat(char *d, const char *s, size_t n)
{
    size_t k = strlen(d), i = 0;
    for (; i < n && s[i]; i++) d[k+i] = s[i];
    d[k+i] = 0;
    return d;
}

char *
strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return (char *)r;
    }
}

static int
vf_inset(const char *s, char c)
{
    for (; *s; s++) if (*s == c) return 1;
    return 0;
}

size_t strspn(const char *s, const char *a)  { size_t i = 0; while (s[i] && vf_inset(a, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while (s[i] && !vf_inset(a, s[i])) i++; return i; }
char * strpbrk(const char *s, const char *a) { for (; *s; s++) if (vf_inset(a, *s)) return (char *)s; return 0; }

char *
strstr(const char *h, const char *n)
{
    size_t k = strlen(n);
    for (;; h++) {
        if (strncmp(h, n, k) == 0) return (char *)h;
        if (!*h) return 0;
    }
}

#ifndef VF_NO_STRDUP
char *
strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}

char *
strndup(const char *s, size_t k)
{
    size_t n = strnlen(s, k);
    char *p = malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
#endif
#endif
