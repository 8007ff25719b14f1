#include "vf.h"
#define HEAP_SIZE   128
#define HEAP_SLOTS  3
#include "vf_heap.h"
/* the escape code printed for one byte */
#define snprintf(b, n, f, v)    vf_oct(b, n, f, v)
static int vf_oct(char *b, size_t n, const char *f, unsigned v);
#include "gstring.c"
#include "escape.c"
#include "unescape.c"

#undef snprintf
/* snprintf() for the formats a byte can be printed with: a literal, then %o
 * with optional precision or zero-padded width */
static int
vf_oct(char *b, size_t n, const char *f, unsigned v)
{
    char t[32];
    int k = 0;
    while (*f && *f != '%') t[k++] = *f++;
    PROVE(*f == '%');
    f++;
    int w = 0, p = 0, z = 0;
    if (*f == '0') { z = 1; f++; }
    while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; while (*f >= '0' && *f <= '9') p = p * 10 + *f++ - '0'; }
    PROVE(*f == 'o' || *f == 'x');
    int sh = *f == 'o' ? 3 : 4;
    char dg[16];
    int nd = 0;
    do { int d = v & ((1 << sh) - 1); dg[nd++] = d < 10 ? '0' + d : 'a' + d - 10; v >>= sh; } while (v);
    int tot = nd > p ? nd : p;
    for (int i = tot; i < w; i++) t[k++] = z ? '0' : ' ';
    for (int i = nd; i < p; i++) t[k++] = '0';
    while (nd > 0) t[k++] = dg[--nd];
    for (f++; *f; f++) t[k++] = *f;
    for (int i = 0; i < k && i + 1 < n; i++) b[i] = t[i];
    if (n > 0) b[k < n ? k : n - 1] = 0;
    return k;
}

static void
vfh_mk(gstr *g, const char *s, int n, int cap)
{
    g->cap = cap;
    g->str = malloc(cap);
    g->len = n;
    memcpy(g->str, s, n + 1);
}

/* escape, then unescape: every string over these bytes comes back */
static const char vfh_set1[] = "\n\t \x01\xe9z\x80\x7f";
static const char vfh_alpha[] = { '\\', '\n', '\t', ' ', 'a', '0', '7', 'x', 1, '\xe9', 'z', -128, 127, -1 };
static const char vfh_alpha4[] = { '\\', '\n', '0', 1, '\xe9', 'x' };

static void
vfh_scene_rt(const char *al, int na, int n, int code, int esc)
{
    char s[8];
    gstr g;

    for (int i = 0; i < n; i++) { s[i] = al[code % na]; code /= na; }
    s[n] = 0;
    vfh_mk(&g, s, n, n + 1);

    gstr *r = gstr_escape(&g, vfh_set1, esc);
    VF_reach();
    PROVE(r == &g);
    PROVE(g.len == strlen(g.str) && g.len < g.cap);
    for (int i = 0; i < g.len; i++) {
        if (g.str[i] == esc) { i++; PROVE(i < g.len); }
        else PROVE(strchr(vfh_set1, g.str[i]) == 0);
    }
    r = gstr_unescape(&g, esc);
    VF_reach();
    PROVE(r == &g);
    PROVE(g.len == n && g.len < g.cap);
    for (int i = 0; i <= n; i++) PROVE(g.str[i] == s[i]);
    gstr_fini(&g);
    PROVE(vf_live == 0);
    vf_heap_reset();
    VF_END;
}

/* what unescape makes of each escape, wherever the string ends */
static int vfh_hexval(int c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }

static void
vfh_one(const char *in, int n, int v, int used)
{
    gstr g;
    vfh_mk(&g, in, n, n + 1);
    gstr_unescape(&g, '\\');
    VF_reach();
    PROVE(g.len == 1 + n - used && g.len < g.cap);
    PROVE((unsigned char)g.str[0] == v);
    for (int i = used; i <= n; i++) PROVE(g.str[1 + i - used] == in[i]);
    gstr_fini(&g);
    vf_heap_reset();
    VF_END;
}

static void
vfh_table(void)
{
    static const char simple[] = "abefnrtv\\\"'zq?";
    static const char sval[]   = { 7, 8, 27, 12, 10, 13, 9, 11, '\\', '"', '\'', 'z', 'q', '?' };
    static const char dig[]    = "0123456789abcdefABCDEF";
    static const char tail[]   = { 0, 'g', ' ', '\xe9' };
    char s[8];

    for (int t = 0; t < 4; t++) {
        for (int i = 0; simple[i]; i++) {
            s[0] = '\\'; s[1] = simple[i]; s[2] = tail[t]; s[3] = 0;
            vfh_one(s, t ? 3 : 2, sval[i], 2);
        }
        for (int i = 0; i < 22; i++) {
            s[0] = '\\'; s[1] = 'x'; s[2] = dig[i]; s[3] = tail[t]; s[4] = 0;
            vfh_one(s, t ? 4 : 3, vfh_hexval(dig[i]), 3);
            for (int j = 0; j < 22; j += (t ? 7 : 1)) {
                s[3] = dig[j]; s[4] = tail[t]; s[5] = 0;
                vfh_one(s, t ? 5 : 4, vfh_hexval(dig[i]) * 16 + vfh_hexval(dig[j]), 4);
            }
        }
        for (int v = 0; v < 256; v += (t ? 51 : 1)) {
            s[0] = '\\'; s[1] = '0'; s[2] = '0' + v / 64; s[3] = '0' + v / 8 % 8; s[4] = '0' + v % 8;
            s[5] = tail[t]; s[6] = 0;
            vfh_one(s, t ? 6 : 5, v, 5);
            if (v >= 100) {
                s[1] = '0' + v / 100; s[2] = '0' + v / 10 % 10; s[3] = '0' + v % 10; s[4] = tail[t]; s[5] = 0;
                vfh_one(s, t ? 5 : 4, v, 4);
            }
        }
        /* no digits: the escape stays */
        if (t) {
            gstr g;
            s[0] = '\\'; s[1] = 'x'; s[2] = tail[t]; s[3] = 0;
            vfh_mk(&g, s, 3, 4);
            gstr_unescape(&g, '\\');
            VF_reach();
            PROVE(g.len == 3 && g.str[0] == '\\' && g.str[1] == 'x' && g.str[2] == s[2] && g.str[3] == 0);
            gstr_fini(&g);
            vf_heap_reset();
        }
    }
    /* nothing after the escape char */
    s[0] = '\\'; s[1] = 0;
    vfh_one(s, 1, '\\', 1);
    return;
}

/* any bytes at all: stays inside the string */
static const struct vf_cls vfh_cls[] = {
    { '\\', '\\' }, { '0', '0' }, { '1', '7' }, { '8', '9' }, { 'x', 'x' },
    { 'a', 'f' }, { 'g', 'w' }, { -128, -1 }, { 'A', 'Z' },
};
static void
vfh_scene_safe(int n, int code)
{
    char s[8];
    unsigned char cv[8];
    gstr g;
    vf_clsstr(s, cv, n, code, vfh_cls, NELEM(vfh_cls), 0);
    vfh_mk(&g, s, n, n + 1);
    gstr_unescape(&g, '\\');
    VF_reach();
    PROVE(g.len <= n && g.len < g.cap);
    PROVE(g.str[g.len] == 0);
    gstr_fini(&g);
    vf_heap_reset();
    VF_END;
}

int main(void)
{
#ifdef RT
    for (int n = 0; n <= RT; n++) {
        int m = vf_pow(NELEM(vfh_alpha), n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            vfh_scene_rt(vfh_alpha, NELEM(vfh_alpha), n, code, (code & 1) ? '\\' : '|');
    }
    for (int code = VF_SHARD; code < vf_pow(NELEM(vfh_alpha4), RT4); code += VF_NSHARD)
        vfh_scene_rt(vfh_alpha4, NELEM(vfh_alpha4), RT4, code, '\\');
#endif
#ifdef TABLE
    vfh_table();
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NELEM(vfh_cls), n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            vfh_scene_safe(n, code);
    }
#endif
    return 0;
}
