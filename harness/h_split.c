#include "vf.h"
#define HEAP_SIZE 1024
#include "vf_heap.h"
#include "strtrim.c"
#include "strsplit.c"

/* strsplit, strsplit_quick: every string of up to SN bytes over the classes
 * below, against the specification in spec() */
static const struct vf_cls vfh_cls[] = {
    { ':', ':' },               /* delimiters: one ASCII, one with the top bit set */
    { ' ', ' ' },               /* white space */
    { 'A', 'z' },
#ifdef WIDE
    { -23, -23 },
    { 9, 13 },
    { -128, -24 },
    { -22, -1 },
    { 1, 8 }, { 33, 57 },
#endif
};
#define NC  NELEM(vfh_cls)
#ifdef WIDE
static const char vfh_delims[] = { ':', -23, 0 };
#else
static const char vfh_delims[] = { ':', 0 };
#endif

static int vfh_is_delim(int k) { return k == 0 || k == 3; }
static int vfh_is_ws(int k)    { return k == 1 || k == 4; }

static int vfh_nt, vfh_from[SN + 2], vfh_len[SN + 2];       /* expected tokens */
static int vfh_alldelim;

static void
vfh_spec(const unsigned char *cv, int n, int sqz)
{
    int b = 0, e = n;

    vfh_nt = 0;
    vfh_alldelim = 0;
    if (sqz) {
        while (b < e && vfh_is_ws(cv[b])) b++;
        while (e > b && vfh_is_ws(cv[e-1])) e--;
    }
    int i = b;
    int tok = b;
    while (i < e) {
        if (!vfh_is_delim(cv[i])) { i++; continue; }
        vfh_from[vfh_nt] = tok; vfh_len[vfh_nt] = i - tok; vfh_nt++;
        i++;
        if (sqz) while (i < e && vfh_is_delim(cv[i])) i++;
        tok = i;
    }
    if (tok < e) { vfh_from[vfh_nt] = tok; vfh_len[vfh_nt] = e - tok; vfh_nt++; }
    else if (sqz && vfh_nt == 1 && vfh_len[0] == 0) vfh_alldelim = 1;
}

static void
vfh_check(char **v, const char *s, const unsigned char *cv, int mode)
{
    for (int t = 0; t < vfh_nt; t++) {
        char *q = v[t];
        PROVE(q >= s && q <= s + SN);
        for (int j = 0; j < vfh_len[t]; j++)
            PROVE(vf_is(q[j], vfh_from[t]+j, cv[vfh_from[t]+j], vfh_cls, mode));
        PROVE(q[vfh_len[t]] == 0);
    }
}

static void
vfh_scene(int n, int code, int sqz, int mode)
{
    char s[SN + 1];
    unsigned char cv[SN + 1];
    int r = 77;

    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
    vfh_spec(cv, n, sqz);
    char **v = strsplit(&r, s, vfh_delims, sqz);

    VF_reach();
    PROVE(v != 0);
    if (vfh_alldelim && r == 0) vfh_nt = 0;     /* nothing but delimiters: no token, or one empty one */
    PROVE(r == vfh_nt);
    vfh_check(v, s, cv, mode);
    free(v);
    PROVE(vf_live == 0);
    vf_heap_reset();
    VF_END;
}

#ifndef WIDE
static void
vfh_scene_quick(int n, int code, int sqz, int mode)
{
    char s[SN + 1];
    unsigned char cv[SN + 1];
    char *vec[SN + 2];

    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
    vfh_spec(cv, n, sqz);
    for (int cap = vfh_nt > 0 ? vfh_nt - 1 : 0; cap <= vfh_nt; cap++) {
        char **v = &vec[SN + 2 - cap];
        vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
        int r = strsplit_quick(v, cap, s, vfh_delims, sqz);

        if (vfh_alldelim && r <= 0) vfh_nt = 0;
        if (vfh_nt <= cap) {
            VF_reach();
            PROVE(r == vfh_nt);
            vfh_check(v, s, cv, mode);
        } else {
            VF_reach();
            PROVE(r < 0);
        }
    }
    VF_END;
}

#endif

/* many tokens: the vector has to grow, twice */
static void
vfh_scene_many(int nn, int sqz)
{
    char s[2 * MANY + 1];
    int r = 77;

    for (int i = 0; i < nn; i++) {
        s[2*i] = Frama_C_interval('a', 'z');
        s[2*i+1] = ':';
    }
    s[2*nn-1] = 0;
    char **v = strsplit(&r, s, vfh_delims, sqz);
    VF_reach();
    PROVE(v != 0 && r == nn);
    for (int i = 0; i < nn; i++) {
        PROVE(v[i] == &s[2*i]);
        PROVE(v[i][0] != 0 && v[i][1] == 0);
    }
    free(v);
    PROVE(vf_live == 0);
    vf_heap_reset();
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NC, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            for (int sqz = 0; sqz < 2; sqz++)
                for (int mode = 0; mode < 2; mode++) {
                    vfh_scene(n, code, sqz, mode);
#ifndef WIDE
                    if (mode) vfh_scene_quick(n, code, sqz, mode);
#endif
                }
    }
    for (int sqz = 0; sqz < 2; sqz++)
        for (int nn = MANY - 2; nn <= MANY; nn++)
            vfh_scene_many(nn, sqz);
    return 0;
}
