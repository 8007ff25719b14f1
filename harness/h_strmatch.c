/* string search: every algorithm finds every occurrence and nothing else */
#define HEAP_SLOTS 8
#define HEAP_SIZE  1024         /* the table of bad characters: one entry before it is out of bounds too */
#include "vf.h"
#include "vf_heap.h"
#include "cxx_rt.h"
#include "vf_cxx.c"

static char vf_pat[16], vf_text[48];
static int  vf_out[48];
static const char vf_abc[3][3] = { { 'a', 'b', 'c' }, { 0, -1, -128 }, { 127, -2, 1 } };

/* text of n letters of a k-letter alphabet, number 'code'; it ends where the object ends */
static void
vf_search(int algo, char *s, int m, int n, int k, int code, int abc)
{
    char *t = vf_text + sizeof vf_text - n;
    int want = 0;

    for (int i = 0; i < n; i++) { t[i] = vf_abc[abc][code % k]; code /= k; }
    int got = vf_all(algo, s, n ? t : vf_text, n, (char *)vf_out, 48);
    PROVE(!vf_exc);
    VF_reach();
    for (int j = 0; j + m <= n; j++) {
        int i = 0;
        while (i < m && t[j + i] == vf_pat[i]) i++;
        if (i == m) { PROVE(want < got && vf_out[want] == j); want++; }
    }
    PROVE(got == want);
    VF_END;
}

static void
vf_pattern(int algo, int m, int pk, int pcode, int abc)
{
    vf_heap_reset();
    vf_exc = vf_exckind = 0;
    int c = pcode;
    for (int i = 0; i < m; i++) { vf_pat[i] = vf_abc[abc][c % pk]; c /= pk; }
    char *s = vf_new(algo, vf_pat, m);
    PROVE(!vf_exc && vf_len(algo, s) == m);
    int live = vf_live;
    for (int n = 0; n <= TLEN; n++) {
        int k = n <= TLEN3 ? 3 : 2, all = vf_pow(k, n);
        int step = n > TALL ? TSTEP : 1;
        for (int code = (pcode + m) % step; code < all; code += step) vf_search(algo, s, m, n, k, code, abc);
    }
    PROVE(vf_live == live);
    vf_delete(algo, s);
    PROVE(vf_live == 0 && !vf_exc);
    VF_END;
}

/* the pattern after each prefix of itself (a jump by one too many from there misses it), at the start or after an occurrence */
static void
vf_occurs(int algo, char *s, int m, int sh, int lead)
{
    int n = lead + sh + m, want = 0;
    char *t = vf_text + sizeof vf_text - n;

    for (int i = 0; i < lead + sh; i++) t[i] = vf_pat[i < lead ? i : i - lead];
    for (int i = 0; i < m; i++) t[lead + sh + i] = vf_pat[i];
    int got = vf_all(algo, s, t, n, (char *)vf_out, 48);
    PROVE(!vf_exc);
    VF_reach();
    for (int j = 0; j + m <= n; j++) {
        int i = 0;
        while (i < m && t[j + i] == vf_pat[i]) i++;
        if (i == m) { PROVE(want < got && vf_out[want] == j); want++; }
    }
    PROVE(got == want);
    VF_END;
}

static void
vf_middle(int algo, int m, int pcode, int abc)
{
    vf_heap_reset();
    vf_exc = vf_exckind = 0;
    int c = pcode;
    for (int i = 0; i < m; i++) { vf_pat[i] = vf_abc[abc][c % 2]; c /= 2; }
    char *s = vf_new(algo, vf_pat, m);
    PROVE(!vf_exc);
    int live = vf_live;
    for (int sh = 1; sh < m; sh++) {
        vf_occurs(algo, s, m, sh, 0);
        vf_occurs(algo, s, m, sh, m);
    }
    PROVE(vf_live == live);
    VF_END;
}

/* long patterns: a run, and a run with another letter at one place; in a text around it */
static void
vf_long(int algo, int m, int at)
{
    static char p[48], t[64];
    vf_heap_reset();
    vf_exc = vf_exckind = 0;
    for (int i = 0; i < m; i++) p[i] = i == at ? 'b' : -3;
    char *s = vf_new(algo, p, m);
    PROVE(!vf_exc);
    for (int n = m - 1; n <= m + 3; n++)
        for (int at2 = -1; at2 <= n; at2 += n / 2 + 1) {
            char *x = t + sizeof t - n;
            int want = 0;
            for (int i = 0; i < n; i++) x[i] = i == at2 || i == at + 1 ? 'b' : -3;
            int got = vf_all(algo, s, x, n, (char *)vf_out, 48);
            PROVE(!vf_exc);
            VF_reach();
            for (int j = 0; j + m <= n; j++) {
                int i = 0;
                while (i < m && x[j + i] == p[i]) i++;
                if (i == m) { PROVE(want < got && vf_out[want] == j); want++; }
            }
            PROVE(got == want);
        }
    vf_delete(algo, s);
    PROVE(vf_live == 0 && !vf_exc);
    VF_END;
}

/* nothing to look for, negative lengths: an exception, nothing left behind */
static void
vf_refuse(int algo, int m)
{
    vf_heap_reset();
    vf_exc = vf_exckind = 0;
    vf_new(algo, vf_pat, m);
    VF_reach();
    PROVE(vf_exc && vf_exckind == VF_LENGTH_ERROR && vf_live == 0);
    VF_END;
}

/* memory runs out at the k-th allocation, in the constructor or in the search */
static void
vf_nomem(int algo, int k)
{
    char *s;
    int live;
    vf_heap_reset();
    vf_exc = vf_exckind = 0;
    vf_fail_at = k;
    vf_pat[0] = vf_pat[1] = 'a';
    s = vf_new(algo, vf_pat, 2);
    if (vf_exc) { PROVE(vf_live == 0 && vf_exckind == VF_BAD_ALLOC); VF_END; }
    live = vf_live;
    for (int i = 0; i < 8; i++) vf_text[i] = 'a';
    int got = vf_all(algo, s, vf_text, 8, (char *)vf_out, 48);
    if (vf_exc) { vf_exc = 0; PROVE(vf_exckind == VF_BAD_ALLOC && vf_failed); }
    else { PROVE(got == 7 && !vf_failed); VF_reach(); }
    PROVE(vf_live == live);
    vf_delete(algo, s);
    PROVE(vf_live == 0);
    VF_END;
}

static int vf_k;
int main(void)
{
    vf_cxx_init();
    for (int algo = 0; algo < 4; algo++) {
        if (vf_k++ % VF_NSHARD == VF_SHARD) {
            if (algo != 2) for (int m = -1; m <= 0; m++) vf_refuse(algo, m);
            for (int k = 0; k < 9; k++) vf_nomem(algo, k);
        }
        for (int m = 1; m <= PLEN; m++)
            for (int c = 0; c < vf_pow(2, m); c++)
                if (vf_k++ % VF_NSHARD == VF_SHARD) vf_pattern(algo, m, 2, c, (c + m) % 3);
        for (int m = 5; m <= PMID; m++)
            for (int c = 0; c < vf_pow(2, m); c += 2)
                if (vf_k++ % VF_NSHARD == VF_SHARD) vf_middle(algo, m, c, (c / 2 + m) % 3);
        for (int c = 0; c < 27; c += 27 / PTHREE)
            if (vf_k++ % VF_NSHARD == VF_SHARD) vf_pattern(algo, 3, 3, c, c % 3);
        for (int m = 31; m <= 34; m++)
            if (vf_k++ % VF_NSHARD == VF_SHARD) { vf_long(algo, m, -1); vf_long(algo, m, m / 2); vf_long(algo, m, 0); }
    }
    return 0;
}
