/* gstring: length, terminator and capacity agree with the content after every operation. */
#include "vf.h"
#define HEAP_SIZE 160
#include "vf_heap.h"
static int vf_fgetc(void);
#define fgetc(fp)   ((fp) == FP_ ? vf_fgetc() : (VF_fail(), 0))
static FILE *FP_ = (FILE *)"";
#include "src/gstring.c"

#define XN  24
static char vfh_exp_[XN + 1];
static int  vfh_elen;

/* the string is exp_[0..elen-1]; all of the capacity is there */
static void
vfh_sees(gstr *g)
{
    PROVE(g->str != 0);
    PROVE(g->len == vfh_elen && (gstr_len)(g) == vfh_elen);
    PROVE(g->cap > g->len && (gstr_str)(g) == g->str);
    PROVE(g->str[vfh_elen] == 0);
    for (int i = 0; i < vfh_elen; i++) PROVE(g->str[i] == vfh_exp_[i]);
    if (g->cap <= 160) for (size_t i = vfh_elen; i < g->cap; i++) g->str[i] = 0;
}
static int vfh_any_;
#define TAGC(k)   ((char)(vfh_any_ ? -100 + (k) : 40 + (k)))

/* a string of n tagged bytes in capacity for at least 'size' */
static void
vfh_mk(gstr *g, int n, size_t size, int tag)
{
    char s[XN + 1];
    for (int i = 0; i < n; i++) s[i] = TAGC(tag + i);
    s[n] = 0;
    PROVE(gstr_init(g, size) == g);
    PROVE(g->cap > size && g->len == 0);
    PROVE(g->str[0] == 0);
    if (n) PROVE(gstr_append_str(g, s) == n);
}

static void
vfh_scene(int op, int n, size_t size, int m)
{
    gstr g, h;
    char s[XN + 1];
    vf_heap_reset();
    vfh_any_ = (n + m) & 1;
    vfh_mk(&g, n, size, 0);
    for (int i = 0; i < n; i++) vfh_exp_[i] = TAGC(i);
    vfh_elen = n;
    vfh_sees(&g);
    for (int i = 0; i < m; i++) s[XN - m + i] = TAGC(30 + i);
    s[XN] = 0;
    char *add = &s[XN - m];
    int live = 1;
    switch (op) {
        case 0: PROVE(gstr_append_str(&g, add) == n + m); for (int i = 0; i < m; i++) vfh_exp_[vfh_elen++] = add[i]; break;
        case 1: vfh_mk(&h, m, m, 30); PROVE(gstr_append(&g, &h) == n + m); for (int i = 0; i < m; i++) vfh_exp_[vfh_elen++] = TAGC(30 + i); PROVE(h.len == m && h.str[m] == 0); gstr_fini(&h); break;
        case 2: PROVE(gstr_append(&g, &g) == 2 * n); for (int i = 0; i < n; i++) vfh_exp_[vfh_elen++] = TAGC(i); break;
        case 3: for (int i = 0; i < m; i++) { PROVE(gstr_append_ch(&g, add[i]) == n + i + 1); vfh_exp_[vfh_elen++] = add[i]; } break;
        case 4: { int k = m < n ? m : n; PROVE(gstr_truncate(&g, m) == k); vfh_elen = k; } break;
        case 5: vfh_mk(&h, m, 2 * m, 30); PROVE(gstr_copy(&g, &h) == &g); PROVE(g.str != h.str); for (vfh_elen = 0; vfh_elen < m; vfh_elen++) vfh_exp_[vfh_elen] = TAGC(30 + vfh_elen); PROVE(h.len == m && h.str[m] == 0); gstr_fini(&h); break;
        case 6: PROVE(gstr_dup(&h, &g) == &h); PROVE(h.str != g.str); vfh_sees(&h); gstr_fini(&h); break;
        case 7: PROVE(gstr_init_from(&h, g.str) == &h); vfh_sees(&h); gstr_fini(&h); break;
        case 8: PROVE(gstr_append_str(&g, 0) == n && gstr_append(&g, 0) == n); break;
        case 9: gstr_reset(&g); vfh_elen = 0; break;
        case 10: PROVE(gstr_copy(&g, &g) == &g); break;
        case 11: if (n) PROVE(gstr_lastch(&g) == vfh_exp_[n - 1] && gstr_firstch(&g) == vfh_exp_[0]);
                 PROVE(gstr_eq_str(&g, g.str)); gstr_dup(&h, &g); PROVE(gstr_eq(&g, &h)); if (m) { gstr_append_ch(&h, 'x'); PROVE(!gstr_eq(&g, &h) && !gstr_eq_str(&g, h.str)); } gstr_fini(&h); break;
        case 12: PROVE(gstr_init_from(&h, 0) == &h); gstr_append_ch(&h, 5); gstr_fini(&h); break;
        case 13: gstr_append_str(&g, add); for (int i = 0; i < m; i++) vfh_exp_[vfh_elen++] = add[i]; vfh_sees(&g); gstr_append_str(&g, add); for (int i = 0; i < m; i++) vfh_exp_[vfh_elen++] = add[i]; break;
        case 14: if (!m || n < m) VF_END; vfh_mk(&h, n, n, 0); h.str[m - 1] = 'z'; PROVE(!gstr_eq(&g, &h)); gstr_fini(&h); break;
    }
    VF_reach();
    vfh_sees(&g);
    gstr_append_ch(&g, 'q'); vfh_exp_[vfh_elen++] = 'q';
    vfh_sees(&g);
    PROVE(vf_live == 1);
    gstr_fini(&g);
    PROVE(vf_live == 0 && g.str == 0 && g.len == 0);
    VF_END;
}

/* -- editing: trim, chop, unquote, by byte classes */
static const struct vf_cls vfh_cls[] = { { ' ', ' ' }, { '\t', '\r' }, { 'a', 'z' }, { -128, -1 }, { '"', '"' }, { '\'', '\'' }, { '\n', '\n' }, { '\r', '\r' } };

static void
vfh_scene_edit(int op, int n, int code, int mode)
{
    static const struct vf_cls ct[] = { { ' ', ' ' }, { 'a', 'z' }, { -128, -1 }, { '\t', '\r' } };
    static const struct vf_cls cc[] = { { '\n', '\n' }, { 'a', 'z' }, { '\r', '\r' }, { -128, -1 } };
    static const struct vf_cls cq[] = { { '"', '"' }, { 'a', 'z' }, { '\'', '\'' }, { -128, -1 } };
    const struct vf_cls *c = op == 0 ? ct : op == 1 ? cc : op == 2 ? cq : ct;
    char s[8];
    unsigned char cv[8];
    gstr g;
    vf_heap_reset();
    vf_clsstr(s, cv, n, code, c, 4, mode);
    gstr_init_from(&g, s);
    char was[8];
    memcpy(was, g.str, n + 1);
    int a = 0, b = n;
    switch (op) {
        case 0: PROVE(gstr_trim(&g) == &g);
            while (a < b && (cv[a] == 0 || cv[a] == 3)) a++;
            while (b > a && (cv[b - 1] == 0 || cv[b - 1] == 3)) b--;
            break;
        case 1: gstr_chop(&g);
            if (b > a && cv[b - 1] == 0) b--;
            if (b > a && cv[b - 1] == 2) b--;
            break;
        case 2: { int r = gstr_unquote(&g);
            if (n > 0 && (cv[0] == 0 || cv[0] == 2)) {
                int q = cv[0] == 0 ? '"' : '\'';
                if (n > 1 && cv[n - 1] == cv[0]) { PROVE(r == q); a = 1; b = n - 1; }
                else PROVE(r < 0);
            } else PROVE(r == 0);
            } break;
        case 3: { int r = gstr_chop_if(&g, "X \t\n\v\f\rY");
            if (n == 0) PROVE(r == 0);
            else {
                PROVE(vf_is((char)r, n - 1, cv[n - 1], c, mode));
                if (cv[n - 1] == 0 || cv[n - 1] == 3) b--;
            } } break;
    }
    VF_reach();
    PROVE(g.len == b - a && g.cap > g.len);
    PROVE(g.str[b - a] == 0);
    for (int i = a; i < b; i++) PROVE(vf_is(g.str[i - a], i, cv[i], c, mode));
    gstr_fini(&g);
    PROVE(vf_live == 0);
    VF_END;
}

/* -- reading lines */
static const char *vfh_in_;
static int vfh_in_n, vfh_in_pos, vfh_in_eof;
static int
vf_fgetc(void)
{
    if (vfh_in_pos < vfh_in_n) return (unsigned char)vfh_in_[vfh_in_pos++];
    vfh_in_eof++;
    return EOF;
}
/* (the delimiter table is bits: single values, but different ones everywhere) */
#define LCH(i)  ((char)((i) & 1 ? 'e' + (i) + at : -128 + (i) * 13 + n))
static void
vfh_scene_line(int n, int at, int at2, size_t size, int dl)
{
    char s[40];
    static const char *const toks[] = { "\n", "\xff:", "ab\r" };
    static const char dc[] = { '\n', (char)0xff, '\r' };
    gstr g;
    vf_heap_reset();
    for (int i = 0; i < n; i++) s[i] = LCH(i);
    if (at < n) s[at] = dc[dl];
    if (at2 < n) s[at2] = dc[dl];
    vfh_in_ = s; vfh_in_n = n; vfh_in_pos = vfh_in_eof = 0;
    gstr_init(&g, size);
    int pos = 0;
    for (int k = 0; k < 4; k++) {
        int e = pos;
        while (e < n && e != at && e != at2) e++;
        int r = gstr_readline(&g, FP_, toks[dl]);
        VF_reach();
        PROVE(r == e - pos && g.len == e - pos && g.cap > g.len);
        PROVE(g.str[g.len] == 0);
        for (int i = pos; i < e; i++) PROVE(g.str[i - pos] == LCH(i));
        g.str[g.cap - 1] = 0;
        PROVE(vfh_in_pos == (e < n ? e + 1 : n));
        pos = e < n ? e + 1 : n;
    }
    gstr_fini(&g);
    PROVE(vf_live == 0);
    VF_END;
}

int main(void)
{
#ifdef EDIT
    for (int op = 0; op < 4; op++)
        for (int n = 0; n <= EDIT; n++) {
            int m = vf_pow(4, n);
            for (int code = VF_SHARD; code < m; code += VF_NSHARD)
                for (int mode = 0; mode < 2; mode++) vfh_scene_edit(op, n, code, mode);
        }
#else
#ifdef THOROUGH
    static const size_t sizes[] = { 1, 3, 7, 8, 0 };
    static const int ns[] = { 0, 1, 2, 3, 4, 6, 7, 8 };
#else
    static const size_t sizes[] = { 1, 3, 7 };
    static const int ns[] = { 0, 1, 3, 4, 7 };
#endif
    int k_ = 0;
    for (int op = 0; op < 15; op++)
        for (int a = 0; a < NELEM(ns); a++)
            for (int k = 0; k < NELEM(sizes); k++)
                for (int b = 0; b < NELEM(ns); b++)
                    if ((op != 2 && (op < 6 || op == 13 || op == 14)) || b == 0 || (b == 1 && op == 11))
                        if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene(op, ns[a], sizes[k], ns[b]);
    for (int dl = 0; dl < 3; dl++)
        for (int k = 0; k < NELEM(sizes); k++)
            for (int n = 0; n <= 5; n++)
                for (int at = 0; at <= n; at++)
                    for (int at2 = at + 1; at2 <= n + (at == n); at2 += 2)
                        if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_line(n, at, at2, sizes[k], dl);
#endif
    return 0;
}
