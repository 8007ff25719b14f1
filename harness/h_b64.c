#include "vf.h"
#include "b64_encode.c"
#include "b64_decode.c"

static const char vfh_alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#define MAXE    ((MAXN + 2) / 3 * 4 + MAXN / 54 + 2)
#ifndef MAXN
#define MAXN    112
#endif

/* size of the encoding without the final newline and NUL */
static int
vfh_enclen(int n)
{
    return (n + 2) / 3 * 4 + n / 54;
}

/* character q*4+j of the encoding of a group of m bytes */
static char
vfh_expect(const unsigned char *b, int m, int j)
{
    int v0 = b[0], v1 = m > 1 ? b[1] : 0, v2 = m > 2 ? b[2] : 0;
    if (j == 0) return vfh_alpha[v0 / 4];
    if (j == 1) return vfh_alpha[v0 % 4 * 16 + v1 / 16];
    if (j == 2) return m < 2 ? '=' : vfh_alpha[v1 % 16 * 4 + v2 / 64];
    return m < 3 ? '=' : vfh_alpha[v2 % 64];
}

/* one group: byte k is v, the others are 'o'; encoded in two pieces cut at 'cut' */
static void
vfh_scene_enc(int n, int k, int v, int o, int cut)
{
    unsigned char s[8];
    char out[16];
    base64_encode_state st;

    for (int i = 0; i < n; i++) s[i] = o;
    s[k] = v;
    base64_encode_init(&st);
    int r = base64_encode_block(&st, (char *)s, cut, out);
    PROVE(r >= 0 && r <= 8);
    r += base64_encode_block(&st, (char *)s + cut, n - cut, out + r);
    r += base64_encode_finish(&st, out + r);
    VF_reach();
    PROVE(r == vfh_enclen(n) + 1);
    for (int j = 0; j < vfh_enclen(n); j++)
        PROVE(out[j] == vfh_expect(&s[j / 4 * 3], n - j / 4 * 3, j % 4));
    PROVE(out[r-1] == '\n' && out[r] == 0);

    /* and back, in two pieces */
    unsigned char back[8];
    base64_decode_state ds;
    base64_decode_init(&ds);
    int c2 = cut < r ? cut : r;
    int d = base64_decode_block(&ds, out, c2, (char *)back);
    PROVE(d >= 0 && d <= n);
    d += base64_decode_block(&ds, out + c2, r - c2, (char *)back + d);
    VF_reach();
    PROVE(d == n);
    for (int i = 0; i < n; i++) PROVE(back[i] == s[i]);
    VF_END;
}

/* every length around the line breaks: each character, line breaks, exact need.
 * How one group is encoded is settled above, for every byte */
static void
vfh_scene_len(int n, int pat)
{
    unsigned char s[MAXN];
    static char mem[MAXE];
    int need = vfh_enclen(n) + 2;

    for (int i = 0; i < n; i++) s[i] = pat == 0 ? 0 : pat == 1 ? 0xff : i * 37 + n;
    char *out = &mem[MAXE - need];
    int r = base64_encode_buf(out, need, s, n);
    VF_reach();
    PROVE(r == need - 1);
    int x = 0;
    for (int j = 0; j < (n + 2) / 3 * 4; j++) {
        PROVE(out[x] == vfh_expect(&s[j / 4 * 3], n - j / 4 * 3, j % 4));
        x++;
        if (j % 72 == 71 && j / 4 * 3 + 3 <= n) { PROVE(out[x] == '\n'); x++; }
    }
    PROVE(out[x] == '\n' && out[x+1] == 0 && x + 1 == r);
    PROVE(base64_encode_buf(out + 1, need - 1, s, n) < 0);
    VF_END;
}

/* decoding any bytes into a buffer of any size */
static const struct vf_cls vfh_cls[] = {
    { 'A', 'Z' }, { '=', '=' }, { '\n', '\n' }, { '{', '{' }, { -128, -1 }, { 1, 9 }, { '+', '9' }, { '*', '*' }, { 'a', 'z' },
};
static void
vfh_scene_dec(int n, int code, int cap)
{
    char s[8];
    unsigned char cv[8];
    static char mem[8];
    char *out = &mem[8 - cap];
    int good = 0;

    vf_clsstr(s, cv, n, code, vfh_cls, NELEM(vfh_cls), 0);
    for (int i = 0; i < n; i++) good += cv[i] == 0 || cv[i] == 8;
    char *e = &s[8 - n];
    for (int i = n - 1; i >= 0; i--) e[i] = s[i];
    int r = base64_decode_buf(out, cap, e, n);
    if (r < 0) {
        VF_reach();
        PROVE(cap < (n * 3 + 3) / 4);
    } else {
        VF_reach();
        PROVE(r <= cap);
        PROVE(r >= good * 3 / 4);
    }
    VF_END;
}

/* every digit at every place of a group, with junk in between */
static void
vfh_scene_digit(int k, int v, int o, int junk)
{
    char s[12];
    unsigned char out[4];
    int x = 0, w = 0;
    for (int i = 0; i < 4; i++) {
        s[x++] = vfh_alpha[i == k ? v : o];
        if (i == junk) s[x++] = Frama_C_interval(-128, '*');
        w = w * 64 + (i == k ? v : o);
    }
    int r = base64_decode_buf(out, 3 + (x > 4 ? 1 : 0), s, x);
    VF_reach();
    PROVE(r == 3);
    PROVE(out[0] == w / 65536 && out[1] == w / 256 % 256 && out[2] == w % 256);
    VF_END;
}

int main(void)
{
    static const unsigned char others[] = { 0, 0xff, 0xa5, 0x5a };
#ifdef ENC
    for (int n = 1; n <= ENC; n++)
        for (int k = 0; k < n; k++)
            for (int v = VF_SHARD; v < 256; v += VF_NSHARD)
                for (int o = (k + v) % 2; o < 4; o += 2)
                    vfh_scene_enc(n, k, v, others[o], (v + o) % (n + 1));
#endif
#ifdef LENS
    for (int n = VF_SHARD; n <= MAXN; n += VF_NSHARD)
        if (n < 10 || (n % 54 >= 51 || n % 54 < 3)) 
            for (int pat = 0; pat < 3; pat++) vfh_scene_len(n, pat);
#endif
#ifdef DEC
    for (int n = 0; n <= DEC; n++)
        for (int code = VF_SHARD; code < vf_pow(NELEM(vfh_cls), n); code += VF_NSHARD)
            for (int cap = 0; cap <= 3; cap++)
                vfh_scene_dec(n, code, cap);
    for (int k = 0; k < 4; k++)
        for (int v = VF_SHARD; v < 64; v += VF_NSHARD)
            for (int o = 0; o < 64; o += 21)
                vfh_scene_digit(k, v, o, (v + o) % 5);
#endif
    return 0;
}
