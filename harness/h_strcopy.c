#include "vf.h"
#include "strcopy.c"

/* strcopy: every string of up to SN bytes into every buffer of 1..BN bytes;
 * byte k of the source is v, the others are any bytes */
static void
vfh_scene(int n, int bs, int k, int v, int pat)
{
    char src[SN + 1];
    char mem[BN + 1];
    char *d = &mem[BN + 1 - bs];
    char *s = &src[SN - n];

    vf_anystr(s, n, pat);
    if (k < n) s[k] = v;
    ssize_t r = strcopy(d, bs, s);

    if (n < bs) {
        VF_reach();
        PROVE(r == n);
        PROVE(d[k] == s[k]);
        PROVE(d[n] == 0);
    } else {
        VF_reach();
        PROVE(r < 0);
        PROVE(d[bs-1] == 0);
        if (k < bs-1) PROVE(d[k] == s[k]);
    }
    VF_END;
}

int main(void)
{
    static const signed char pin[] = PINS;

    for (int n = 0; n <= SN; n++)
        for (int bs = 1; bs <= BN; bs++)
            for (int k = 0; k <= n; k++)
                for (int v = 0; v < (k < n ? NELEM(pin) : 1); v++)
                    for (int pat = 0; pat < NPAT; pat++)
                        vfh_scene(n, bs, k, pin[v], pat);
    return 0;
}
