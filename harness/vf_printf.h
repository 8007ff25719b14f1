/*
 * vf_printf.h - printf-style formatting into a buffer, with a body the
 * analyser can follow: % [-0+ ] width|* .prec|.* hh,h,l,ll,z,j,t  d i u x X o c s p %
 */
#ifndef VF_PRINTF_H
#define VF_PRINTF_H 1
#include <stdarg.h>

#define VF_PUT(ch) do { if (k + 1 < n) b[k] = (ch); k++; } while (0)

static int
vf_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t k = 0;

    for (; *f; f++) {
        if (*f != '%') { VF_PUT(*f); continue; }
        f++;
        int left = 0, zero = 0, w = 0, prec = -1, lng = 0;
        for (;; f++) {
            if (*f == '-') left = 1;
            else if (*f == '0') zero = 1;
            else if (*f == '+' || *f == ' ' || *f == '#') ;
            else break;
        }
        if (*f == '*') { w = va_arg(ap, int); f++; }
        else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
        }
        if (*f == 'h') { f++; if (*f == 'h') f++; }
        else if (*f == 'l') { lng = 1; f++; if (*f == 'l') f++; }
        else if (*f == 'z' || *f == 'j' || *f == 't') { lng = 1; f++; }

        char t[32];
        int nt = 0;             /* digits, reversed */
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
            unsigned long long v;
            int neg = 0, base = *f == 'o' ? 8 : (*f == 'x' || *f == 'X') ? 16 : 10;
            if (*f == 'd' || *f == 'i') {
                long long s = lng ? va_arg(ap, long long) : va_arg(ap, int);
                if (s < 0) { neg = 1; v = -(unsigned long long)s; }
                else v = s;
            } else {
                if (lng) v = va_arg(ap, unsigned long long);
                else     v = va_arg(ap, unsigned int);
            }
            while (v > 0) {
                int d = v % base;
                if (d < 10) t[nt++] = '0' + d;
                else        t[nt++] = (*f == 'X' ? 'A' : 'a') + d - 10;
                v /= base;
            }
            if (prec < 0) { if (nt == 0) t[nt++] = '0'; }
            while (nt < prec && nt < 30) t[nt++] = '0';
            int tot = nt + neg;
            if (!left && !(zero && prec < 0)) for (int i = tot; i < w; i++) VF_PUT(' ');
            if (neg) VF_PUT('-');
            if (!left && zero && prec < 0) for (int i = tot; i < w; i++) VF_PUT('0');
            while (nt > 0) { nt--; VF_PUT(t[nt]); }
            if (left) for (int i = tot; i < w; i++) VF_PUT(' ');
        } else if (*f == 'c') {
            char c = va_arg(ap, int);
            VF_PUT(c);
        } else if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            int len = 0;
            while ((prec < 0 || len < prec) && s[len]) len++;
            if (!left) for (int i = len; i < w; i++) VF_PUT(' ');
            for (int i = 0; i < len; i++) VF_PUT(s[i]);
            if (left) for (int i = len; i < w; i++) VF_PUT(' ');
        } else if (*f == 'p') {
            (void)va_arg(ap, void *);
            VF_PUT('p');
        } else if (*f == '%') {
            VF_PUT('%');
        } else {
            VF_fail();          /* a conversion this model does not know */
        }
    }
    if (n > 0) b[k < n ? k : n - 1] = 0;
    return k;
}

static int
vf_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vf_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}

static int
vf_sprintf(char *b, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vf_vsnprintf(b, 1 << 20, f, ap);
    va_end(ap);
    return r;
}
#define snprintf    vf_snprintf
#define sprintf     vf_sprintf
#define vsnprintf   vf_vsnprintf
#endif
