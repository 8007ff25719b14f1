#include "vf.h"
#include "strsplit_csv.c"
#include "splitargs.c"

/* strsplit_csv, strsplitargs: every string of up to SN bytes over the classes
 * below, against the specification in spec_csv()/spec_args() */
static const struct vf_cls vfh_cls[] = {
    { ',', ',' }, { '"', '"' }, { '\\', '\\' }, { 'A', 'Z' },
    { '\'', '\'' }, { ' ', ' ' },
#ifdef WIDE
    { 9, 13 }, { -128, -24 }, { -23, -23 }, { -22, -1 }, { 1, 8 }, { 58, 64 },
#endif
};
#define NC  NELEM(vfh_cls)
#ifdef WIDE
static const char vfh_seps[] = { -23, ',', 0 };
#define is_sep(k)   ((k) == 0 || (k) == 8)
#else
static const char *vfh_seps = 0;
#define is_sep(k)   ((k) == 0)
#endif
#define is_ws(k)    ((k) == 5 || (k) == 6)
#define is_q(k)     ((k) == 1 || (k) == 4)

/* expected fields: field t is made of the input bytes idx[t][0 .. len[t]) */
static int vfh_nt, vfh_err, vfh_idx[SN + 2][SN + 1], vfh_len[SN + 2];
static int vfh_slack;

static void
vfh_spec_csv(const unsigned char *cv, int n)
{
    int q = 0;

    vfh_nt = 0; vfh_err = 0; vfh_slack = 0;
    vfh_len[0] = 0;
    for (int i = 0; i < n; i++) {
        int k = cv[i];
        if (is_q(k) && q == k) {
            if (cv[i-1] == 2) vfh_idx[vfh_nt][vfh_len[vfh_nt]-1] = i;   /* \" in "..." is a quote char */
            else              q = 0;
        } else if (is_q(k) && q == 0) {
            q = k;
        } else if (is_sep(k) && q == 0) {
            vfh_nt++;
            vfh_len[vfh_nt] = 0;
        } else {
            vfh_idx[vfh_nt][vfh_len[vfh_nt]++] = i;
        }
    }
    if (q && vfh_len[vfh_nt] == 0) vfh_slack = 1;       /* an opening quote with nothing after it */
    else if (q) vfh_err = 1;
    if (vfh_len[vfh_nt] > 0) vfh_nt++;
}

static void
vfh_spec_args(const unsigned char *cv, int n)
{
    int q = 0, in = 0;

    vfh_nt = 0; vfh_err = 0; vfh_slack = 0;
    for (int i = 0; i < n; i++) {
        int k = cv[i];
        if (q == 0 && is_ws(k)) {
            if (in) vfh_nt++;
            in = 0;
            continue;
        }
        if (!in) { in = 1; vfh_len[vfh_nt] = 0; }
        if (q) {
            if (k == q) q = 0;
            else vfh_idx[vfh_nt][vfh_len[vfh_nt]++] = i;
        } else if (is_q(k)) {
            q = k;
        } else {
            vfh_idx[vfh_nt][vfh_len[vfh_nt]++] = i;
        }
    }
    if (in) vfh_nt++;
    if (q) vfh_err = 1;
}

static void
vfh_check(char **v, int r, int cap, const char *s, const unsigned char *cv, int mode)
{
    if (vfh_slack && r == -EINVAL) {
    } else if (vfh_err) {
        VF_reach();
        PROVE(r == -EINVAL || (vfh_nt > cap && r == -ENOSPC));
    } else if (vfh_nt > cap) {
        VF_reach();
        PROVE(r == -ENOSPC);
    } else {
        VF_reach();
        PROVE(r == vfh_nt);
        for (int t = 0; t < vfh_nt; t++) {
            char *q = v[t];
            PROVE(q >= s && q <= s + SN);
            for (int j = 0; j < vfh_len[t]; j++)
                PROVE(vf_is(q[j], vfh_idx[t][j], cv[vfh_idx[t][j]], vfh_cls, mode));
            PROVE(q[vfh_len[t]] == 0);
        }
    }
}

static void
vfh_scene(int n, int code, int mode)
{
    char s[SN + 1];
    unsigned char cv[SN + 1];
    char *vec[SN + 2];

    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
#ifdef ARGS
    vfh_spec_args(cv, n);
#else
    vfh_spec_csv(cv, n);
#endif
    for (int cap = vfh_nt > 0 ? vfh_nt - 1 : 0; cap <= vfh_nt; cap++) {
        char **v = &vec[SN + 2 - cap];
        vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
#ifdef ARGS
        int r = strsplitargs(v, cap, s);
#else
        int r = strsplit_csv(v, cap, s, vfh_seps);
#endif
        vfh_check(v, r, cap, s, cv, mode);
    }
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NC, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            for (int mode = n < SN ? 0 : 1; mode < 2; mode++)
                vfh_scene(n, code, mode);
    }
    return 0;
}
