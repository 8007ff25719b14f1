/* dirname: the path without its last component, as dirname(1). */
#include "vf.h"
#include "dirname.c"

/* '/' or any other byte */
static const struct vf_cls vfh_cls[] = { { '/', '/' }, { 1, '/' - 1 }, { '/' + 1, 127 }, { -128, -1 } };

/* room: bytes more than the string and its NUL need */
static void
vfh_scene(int n, int code, int ncls, int room, int mode)
{
    char src[SN + 2], exp[SN + 2], buf[SN + 4];
    unsigned char cv[SN + 2], c2[SN + 2];
    char *s = &src[SN + 1 - n];
    int cap = n + 1 + room;
    char *b = &buf[sizeof buf - (cap > 0 ? cap : 0)];

    vf_clsstr(s, cv, n, code, vfh_cls, ncls, mode);
    buf[0] = 'X';
    const char *r = dirname(b, cap > 0 ? cap : 0, s);

    /* reference, on classes: e = length of the result */
    int e = n;
    while (e > 1 && cv[e - 1] == 0) e--;            /* trailing slashes */
    while (e > 0 && cv[e - 1] != 0) e--;            /* last component */
    while (e > 1 && cv[e - 1] == 0) e--;            /* slashes before it */

    if (r == 0) {
        VF_reach();
        PROVE(room < 0 || (n == 0 && cap < 2));
        VF_END;
    }
    VF_reach();
    PROVE(room >= 0 && r == b);
    if (e == 0) PROVE(r[0] == '.' && r[1] == 0);
    else {
        for (int i = 0; i < e; i++) PROVE(vf_is(r[i], i, cv[i], vfh_cls, mode));
        PROVE(r[e] == 0);
    }
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= SN; n++)
        for (int code = VF_SHARD; code < vf_pow(2, n); code += VF_NSHARD)
            for (int room = -1; room <= 2; room++) vfh_scene(n, code, 2, room, 1);
    for (int n = 0; n <= WN; n++)
        for (int code = VF_SHARD; code < vf_pow(4, n); code += VF_NSHARD)
            for (int room = -1; room <= 0; room++) vfh_scene(n, code, 4, room, 0);
    return 0;
}
