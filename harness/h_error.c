/* error(), warn(), die(): what reaches standard error, and when the process ends */
#include "vf.h"
#include <stdio.h>
#include <stdarg.h>

#define OUTMAX  4200
static FILE vf_fout, vf_ferr;
static int  vf_flushed, vf_exited, vf_status, vf_n, vf_other;
static char vf_out[OUTMAX + 8];         /* what has been written to standard error */
static int  vf_len;                     /* length of the message; -1: formatting fails */
static int  vf_nl, vf_nl2;              /* positions of newlines in it, or -1 */
/* letters by position, but for a long stretch in the middle */
#define VF_HEAD 40
#define VF_TAIL 1990
static char vf_ch(int i) { if (i == vf_nl || i == vf_nl2) return '\n'; if (i < VF_HEAD || i >= VF_TAIL) return 'a' + i % 23; return 'y'; }

static void
vf_put(FILE *f, char c)
{
    if (f != &vf_ferr) { vf_other++; return; }
    PROVE(!vf_exited);
    PROVE(vf_flushed);                  /* standard output first */
    PROVE(vf_n < OUTMAX);
    if (vf_n < OUTMAX) { vf_out[vf_n] = c; vf_n++; }
}
static int
vf_puts(const char *s, FILE *f)
{
    size_t l = strlen(s);
    if (f != &vf_ferr || l < 8) { for (; *s; s++) vf_put(f, *s); return 1; }
    vf_put(f, *s);
    PROVE(vf_n + l - 1 < OUTMAX);
    memcpy(vf_out + vf_n, s + 1, l - 1);
    vf_n += l - 1;
    return 1;
}
static int vf_putc(int c, FILE *f) { vf_put(f, c); return c; }
static size_t vf_write(const void *p, size_t sz, size_t n, FILE *f) { const char *s = p; for (size_t i = 0; i < sz * n; i++) vf_put(f, s[i]); return n; }
static int vf_flush(FILE *f) { if (f != &vf_ferr) vf_flushed = 1; return 0; }
static void vf_exit(int s) { PROVE(!vf_exited); vf_exited = 1; vf_status = s; }
static const char *vf_strerror(int e) { if (e == 2) return "No such file"; if (e == 13) return "Denied"; if (e == 0) return "Success"; return "Unknown"; }

/* the caller's format is "@" with the argument 77: stands for any message of vf_len characters */
#define vsnprintf   vf_vsn_unused
#define snprintf    vf_sn_unused
#include "vf_printf.h"
#undef  vsnprintf
#undef  snprintf
#undef  sprintf
static int
vf_vs(char *b, size_t n, const char *f, va_list ap)
{
    if (f[0] != '@') return vf_vsnprintf(b, n, f, ap);
    PROVE(va_arg(ap, int) == 77);
    if (vf_len < 0) return -1;
    size_t k = 0;
    if (n > 0) {
        for (; k < vf_len && k + 1 < n; k++) {
            if (k == VF_HEAD && vf_len > VF_TAIL && n > VF_TAIL + 1) {
                memset(b + k, 'y', VF_TAIL - VF_HEAD);
                if (vf_nl >= VF_HEAD && vf_nl < VF_TAIL) b[vf_nl] = '\n';
                if (vf_nl2 >= VF_HEAD && vf_nl2 < VF_TAIL) b[vf_nl2] = '\n';
                k = VF_TAIL;
            }
            b[k] = vf_ch(k);
        }
        b[k] = 0;
    }
    return vf_len;
}
static int vf_sn(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vs(b, n, f, ap); va_end(ap); return r; }
static int
vf_vf(FILE *o, const char *f, va_list ap)
{
    static char b[OUTMAX];
    int r = vf_vs(b, sizeof b, f, ap);
    if (r >= 0) vf_puts(b, o);
    return r;
}
static int vf_f(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vf(o, f, ap); va_end(ap); return r; }

#undef  stdout
#undef  stderr
#define stdout          (&vf_fout)
#define stderr          (&vf_ferr)
#undef  putc
#define vsnprintf       vf_vs
#define snprintf        vf_sn
#define fprintf         vf_f
#define vfprintf        vf_vf
#define fputs           vf_puts
#define fputc           vf_putc
#define putc            vf_putc
#define fwrite          vf_write
#define fflush          vf_flush
#define exit            vf_exit
#define strerror(e)     ((char *)vf_strerror(e))
#include "error.c"

static void vf_progname(void) { vf_puts("hook: ", &vf_ferr); }

static int
vf_expect(int k, const char *s)
{
    for (; *s; s++, k++) PROVE(k < vf_n && vf_out[k] == *s);
    return k;
}

/* which: 0 error, 1 warn, 2 die */
static void
vf_scene(int which, int name, int len, int nl, int nl2, int st, int err)
{
    vf_len = len; vf_nl = nl; vf_nl2 = nl2;
    vf_flushed = vf_exited = vf_status = vf_n = vf_other = 0;
    program_name = name == 1 ? "pr" : 0;
    error_print_progname = name == 2 ? vf_progname : 0;
    if (which == 0) error(st, err, "@", 77);
    else if (which == 1) warn("@", 77);
    else die("@", 77);

    PROVE(vf_other == 0);
    int k = 0, m = len;
    if (name == 1) k = vf_expect(k, "pr: ");
    if (name == 2) k = vf_expect(k, "hook: ");
    if (m > 0 && vf_ch(m - 1) == '\n') m--;
    int i = 0;
    if (len >= 0 && m <= 2000) { while (i < m && k + i < vf_n && vf_out[k + i] == vf_ch(i)) i++; PROVE(i == m); }
    else if (len > 2000) while (i < m && k + i < vf_n && vf_out[k + i] == vf_ch(i)) i++;
    if (len > 2000 && i > 0 && k + i == vf_n && vf_ch(i - 1) == '\n') i--;
    if (len > 2000) PROVE(i >= 2000);   /* cut, but not before */
    k += i;
    if (which == 0 && err != 0) {
        int e = err < 0 ? -err : err;
        k = vf_expect(k, ": ");
        k = vf_expect(k, vf_strerror(e));
        k = vf_expect(k, " [");
        if (e >= 100) { PROVE(vf_out[k] == '0' + e / 100); k++; }
        if (e >= 10)  { PROVE(vf_out[k] == '0' + e / 10 % 10); k++; }
        PROVE(vf_out[k] == '0' + e % 10);
        k++;
        k = vf_expect(k, "]");
    }
    PROVE(k == vf_n - 1 && vf_out[k] == '\n');
    if (which == 1 || (which == 0 && st == 0)) PROVE(!vf_exited);
    else PROVE(vf_exited && vf_status == (which == 2 ? 1 : st));
    VF_reach();
    VF_END;
}

static void
vf_group(int which, int name, int len)
{
    static const int errs[] = { 0, 2, -2, 13, -13, 133 };
    if (len > 1000 && !ALL && name != len % 3) return;
    vf_scene(which, name, len, -1, -1, 1, 0);
    if (len > 0) vf_scene(which, name, len, len - 1, -1, 1, 2);
    if (which == 0) for (int i = 0; i < NELEM(errs); i++) if (len < 100 || i == 1) vf_scene(0, name, len, -1, -1, i % 3, errs[i]);
    if (len > 1 && (ALL || len < 100 || len % 2)) vf_scene(which, name, len, len / 2, len - 1, 1, 2);
    if (len > 1 && (ALL || len < 100)) vf_scene(which, name, len, 0, -1, 0, -13);
    /* newlines around the place of the cut */
    if (len > 2047) for (int c = 2040; c < 2050; c++) if (c < len && (ALL || (c ^ len) % 4 == 0)) vf_scene(which, name, len, c, -1, 1, 0);
}

int main(void)
{
    static const int lens[] = { 2046, 2045, 2047, 2048, 2044, 2049, 3000, 2000, 1999, 99, 0, 1, 2, 3, 17, -1, 2043, 2050 };
    int k = 0;
    for (int i = 0; i < NELEM(lens); i++)
        for (int w = 0; w < 3; w++)
            for (int n = 0; n < 3; n++)
                if (k++ % VF_NSHARD == VF_SHARD) vf_group(w, n, lens[i]);
    return 0;
}
