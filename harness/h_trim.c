#include "vf.h"
#include "strtrim.c"
#include "strunquote.c"

/* strtrim, strunquote: every string of up to SN bytes over the classes below */
static const struct vf_cls vfh_cls[] = {
    { ' ', ' ' }, { '"', '"' }, { '\'', '\'' }, { 'A', 'Z' },
    { 9, 13 }, { -128, -1 },
#ifdef WIDE
    { 1, 8 }, { 14, 31 }, { 33, 33 }, { 35, 38 }, { 40, 64 }, { 91, 127 },
#endif
};
#define NC  NELEM(vfh_cls)
static int vfh_is_ws(int k)    { return k == 0 || k == 4; }

static void
vfh_scene_trim(int n, int code, int mode)
{
    char s[SN + 1];
    unsigned char cv[SN + 1];
    int b = 0, e = n;

    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
    while (b < e && vfh_is_ws(cv[b])) b++;
    while (e > b && vfh_is_ws(cv[e-1])) e--;

    char *r = strtrim(s);
    VF_reach();
    PROVE(r >= s && r <= s + n);
    for (int i = b; i < e; i++)
        PROVE(vf_is(r[i-b], i, cv[i], vfh_cls, mode));
    PROVE(r[e-b] == 0);
    VF_END;
}

static void
vfh_scene_unq(int n, int code, int mode)
{
    char m[SN + 2];
    char *s = &m[1];
    unsigned char cv[SN + 1];
    char *p = 0;

    m[0] = Frama_C_interval(-128, 127);
    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
    int r = strunquote(s, &p);
    int q = n > 0 && (cv[0] == 1 || cv[0] == 2);

    if (!q) {
        VF_reach();
        PROVE(r == 0);
        for (int i = 0; i < n; i++) PROVE(vf_is(s[i], i, cv[i], vfh_cls, mode));
        PROVE(s[n] == 0);
    } else if (n < 2 || cv[n-1] != cv[0]) {
        VF_reach();
        PROVE(r < 0);
    } else {
        VF_reach();
        PROVE(r == (cv[0] == 1 ? '"' : '\''));
        PROVE(p >= s && p <= s + n);
        for (int i = 1; i < n-1; i++) PROVE(vf_is(p[i-1], i, cv[i], vfh_cls, mode));
        PROVE(p[n-2] == 0);
    }
    VF_END;
}

int main(void)
{
    VF_reach();
    PROVE(strtrim(0) == 0);
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NC, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            for (int mode = n < SN ? 0 : 1; mode < 2; mode++) {
                vfh_scene_trim(n, code, mode);
                vfh_scene_unq(n, code, mode);
            }
    }
    return 0;
}
