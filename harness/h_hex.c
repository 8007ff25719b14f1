#include "vf.h"
#include "str2hex.c"

/* str2hex: every string of up to SN bytes: classes 0,1,2 are the hex digits */
static const struct vf_cls vfh_cls[] = {
    { '0', '9' }, { 'a', 'f' }, { 'A', 'F' },
    { 1, '0'-1 }, { '9'+1, 'A'-1 }, { 'F'+1, 'a'-1 }, { 'f'+1, 127 }, { -128, -1 },
};
#define NC  NELEM(vfh_cls)

static int
vfh_val(int c)
{
    if (c <= '9') return c - '0';
    if (c <= 'F') return c - 'A' + 10;
    return c - 'a' + 10;
}

static void
vfh_scene(int n, int code, int cap, int mode)
{
    char s[SN + 1];
    unsigned char cv[SN + 1];
    uint8_t mem[SN + 1];
    uint8_t *out = &mem[SN + 1 - cap];
    int valid = 1;

    vf_clsstr(s, cv, n, code, vfh_cls, NC, mode);
    for (int i = 0; i < n; i++) if (cv[i] > 2) valid = 0;
    ssize_t r = str2hex(out, cap, s);

    if (!valid) {
        VF_reach();
        PROVE(r < 0);
    } else if (cap < (n+1)/2) {
        VF_reach();
        PROVE(r < 0);
    } else {
        VF_reach();
        PROVE(r == (n+1)/2);
    }
    VF_END;
}

/* the value of byte k of the result, its two digits pinned */
static void
vfh_scene_val(int n, int k, int d1, int d2)
{
    static const char dig[] = "0123456789abcdefABCDEF";
    char s[8];
    uint8_t out[8];

    for (int i = 0; i < n; i++) s[i] = '5';
    s[n] = 0;
    s[2*k] = dig[d1];
    if (2*k+1 < n) s[2*k+1] = dig[d2];
    ssize_t r = str2hex(out, sizeof out, s);
    VF_reach();
    PROVE(r == (n+1)/2);
    PROVE(out[k] == vfh_val(dig[d1]) * 16 + (2*k+1 < n ? vfh_val(dig[d2]) : 0));
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NC, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            for (int cap = 0; cap <= (n+1)/2; cap++)
                vfh_scene(n, code, cap, n > 2);
    }
    for (int n = 1; n <= 5; n++)
        for (int k = 0; 2*k < n; k++)
            for (int d1 = VF_SHARD; d1 < 22; d1 += VF_NSHARD)
                for (int d2 = 0; d2 < (2*k+1 < n ? 22 : 1); d2++)
                    vfh_scene_val(n, k, d1, d2);
    return 0;
}
