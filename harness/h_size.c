#include "vf.h"
#include "vf_printf.h"
#undef kB
#include "strtosize.c"
#undef KB_
#include "humanize.c"

#define U64MAX  (~(uint64_t)0)

/* digits of v in base b, at the end of a fixed buffer; returns the length */
static int
vfh_digits(char *d, uint64_t v, int b, int upper)
{
    char t[72];
    int n = 0, k = 0;
    do { int x = v % b; t[n++] = x < 10 ? '0' + x : (upper ? 'A' : 'a') + x - 10; v /= b; } while (v);
    while (n > 0) d[k++] = t[--n];
    d[k] = 0;
    return k;
}

/* d += 1, as a base b number; returns the length */
static int
vfh_incr(char *d, int n, int b)
{
    int i;
    for (i = n - 1; i >= 0; i--) {
        int x = d[i] <= '9' ? d[i] - '0' : (d[i] <= 'Z' ? d[i] - 'A' : d[i] - 'a') + 10;
        x++;
        if (x < b) { d[i] = x < 10 ? '0' + x : 'a' + x - 10; return n; }
        d[i] = '0';
    }
    for (i = n; i > 0; i--) d[i] = d[i-1];
    d[0] = '1';
    d[n+1] = 0;
    return n + 1;
}

/* value v written in base b, with or without sign/space/prefix; tail follows */
static void
vfh_scene_num(uint64_t v, int b, int how, int base, const char *tail)
{
    char s[100];
    const char *end = 0;
    uint64_t r = 77;
    int n = 0;

    if (how & 1) { s[n++] = ' '; s[n++] = '\t'; }
    int neg = (how & 2) != 0;
    if (neg) s[n++] = '-';
    else if (how & 4) s[n++] = '+';
    if (base == 0 && b == 16) { s[n++] = '0'; s[n++] = (how & 1) ? 'x' : 'X'; }
    if (base == 0 && b == 8)  s[n++] = '0';
    n += vfh_digits(s + n, v, b, how & 4);
    int i;
    for (i = 0; tail[i]; i++) s[n+i] = tail[i];
    s[n+i] = 0;
    int e = strtou64(s, &end, base, &r);
    VF_reach();
    if (i == 0) PROVE(e == 0);
    if (e == 0) {
        PROVE(r == (neg ? -v : v));
        PROVE(end == s + n);
    } else PROVE(e == -EINVAL);     /* a tail that is not even a digit of another base */
    VF_END;
}

/* one more than the largest number, and ten times more: never a wrapped value */
static void
vfh_scene_over(int b, int more)
{
    char s[100];
    uint64_t r = 77;
    int n = vfh_digits(s, U64MAX, b, 0);
    for (int i = 0; i <= more % 7; i++) n = vfh_incr(s, n, b);
    if (more > 2) { s[n++] = '0'; s[n] = 0; }
    if (more > 4) { s[n++] = '1'; s[n] = 0; }
    int e = strtou64(s, 0, b, &r);
    VF_reach();
    PROVE(e == -ERANGE);
    VF_END;
}

/* sizes: v with each suffix */
static void
vfh_scene_size(uint64_t v, int sh, const char *suf, int bits)
{
    char s[64];
    uint64_t r = 77;
    int n = vfh_digits(s, v, 10, 0), i;
    for (i = 0; suf[i]; i++) s[n+i] = suf[i];
    s[n+i] = 0;
    uint64_t mult = (uint64_t)1 << sh;
    if (bits) mult /= 8;
    int e = strtosize(s, 10, &r);
    if (v <= U64MAX / mult) { VF_reach(); PROVE(e == 0 && r == v * mult); }
    else { VF_reach(); PROVE(e == -ERANGE); }
    VF_END;
}

/* any bytes: in bounds, and a result only without error */
static const struct vf_cls vfh_cls[] = { { '0', '9' }, { 'a', 'z' }, { 'A', 'Z' }, { -128, -1 }, { '-', '-' }, { ' ', ' ' }, { ':', '@' } };
static void
vfh_scene_any(int n, int code, int base, int mode)
{
    char s[8];
    unsigned char cv[8];
    const char *end = 0;
    uint64_t r = 77;
    char *t = &s[7 - n];
    vf_clsstr(t, cv, n, code, vfh_cls, NELEM(vfh_cls), mode);
    int e = strtou64(t, &end, base, &r);
    VF_reach();
    PROVE(e == 0 || e == -EINVAL);
    PROVE(end >= t && end <= t + n);
    e = strtosize(t, base, &r);
    PROVE(e == 0 || e == -EINVAL || e == -ERANGE);
    VF_END;
}

/* humanize: value within one hundredth of the unit printed */
static uint64_t
vfh_unit(const char *p)
{
    switch (*p) {
        case 'k': return 1024ULL;
        case 'M': return 1024ULL << 10;
        case 'G': return 1024ULL << 20;
        case 'T': return 1024ULL << 30;
        case 'P': return 1024ULL << 40;
        case 'E': return 1024ULL << 50;
        case 'b': return 1;
    }
    VF_fail();
    return 1;
}

static void
vfh_scene_human(uint64_t v)
{
    char b[40];
    uint64_t n = 0, f = 0;
    int i = 0;
    PROVE(humanize_size(b, sizeof b, v) == b);
    VF_reach();
    PROVE(b[0] >= '0' && b[0] <= '9');
    for (; b[i] >= '0' && b[i] <= '9'; i++) n = n * 10 + b[i] - '0';
    if (b[i] == '.') {
        PROVE(b[i+1] >= '0' && b[i+1] <= '9' && b[i+2] >= '0' && b[i+2] <= '9');
        f = (b[i+1] - '0') * 10 + b[i+2] - '0';
        i += 3;
    }
    PROVE(b[i] == ' ');
    uint64_t u = vfh_unit(&b[i+1]);
    PROVE(n == v / u || n == v / u + 1);
    PROVE(n < 1024 || v / u <= 1024);
    /* |printed - v| <= u/50 */
    if (u > 1) {
        uint64_t got = n * 100 + f;
        uint64_t want = v / u * 100 + (v % u) / (u / 1024) * 100 / 1024;
        PROVE(got <= want + 1 && want <= got + 1);
    } else PROVE(n == v && f == 0);
    VF_END;
}

static void
vfh_scene_hbuf(int sz, uint64_t v)
{
    char m[8];
    char *b = &m[8 - sz];
    humanize_size(b, sz, v);
    VF_reach();
    PROVE(strlen(b) < sz);
    VF_END;
}

int main(void)
{
    static const char * const tails[] = { "", " ", "z", "/", "\xe9" };
#ifdef NUM
    for (int b = 2 + VF_SHARD; b <= 36; b += VF_NSHARD) {
        uint64_t cut = U64MAX / b;
        uint64_t vals[] = { 0, 1, b - 1, b, b + 1, cut - 1, cut, cut * b - 1, cut * b, U64MAX - 1, U64MAX, 1ULL << 32, 0xdeadbeefcafeULL };
        for (int i = 0; i < NELEM(vals); i++) {
            vfh_scene_num(vals[i], b, i % 8, b, tails[b == 36 && i % 5 == 2 ? 1 : i % 5]);
            if (b == 8 || b == 10 || b == 16) vfh_scene_num(vals[i], b, (i + 3) % 8, 0, tails[(i + 1) % 2]);
        }
        for (int m = 0; m < 7; m++) vfh_scene_over(b, m);
    }
#endif
#ifdef SIZES
    static const struct { const char *s; int sh, bits; } suf[] = {
        { "", 0, 0 }, { "B", 0, 0 }, { "k", 10, 0 }, { "K", 10, 0 }, { "kB", 10, 0 }, { "Kb", 10, 1 }, { "M", 20, 0 }, { "MB", 20, 0 }, { "Mb", 20, 1 },
        { "G", 30, 0 }, { "GB", 30, 0 }, { "Gb", 30, 1 }, { "T", 40, 0 }, { "Tb", 40, 1 }, { "P", 50, 0 }, { "PB", 50, 0 }, { "Pb", 50, 1 },
        { "E", 60, 0 }, { "EB", 60, 0 }, { "Eb", 60, 1 },
    };
    for (int i = VF_SHARD; i < NELEM(suf); i += VF_NSHARD) {
        uint64_t lim = suf[i].sh ? U64MAX >> (suf[i].sh - suf[i].bits * 3) : U64MAX;
        vfh_scene_size(0, suf[i].sh, suf[i].s, suf[i].bits);
        vfh_scene_size(lim, suf[i].sh, suf[i].s, suf[i].bits);
        vfh_scene_size(lim - 1, suf[i].sh, suf[i].s, suf[i].bits);
        if (suf[i].sh) { vfh_scene_size(lim + 1, suf[i].sh, suf[i].s, suf[i].bits); vfh_scene_size(lim + 2, suf[i].sh, suf[i].s, suf[i].bits); }
        for (int k = 0; k < 64; k += 3) {
            vfh_scene_size(1ULL << k, suf[i].sh, suf[i].s, suf[i].bits);
            vfh_scene_size((1ULL << k) + 3, suf[i].sh, suf[i].s, suf[i].bits);
            vfh_scene_size(U64MAX >> k, suf[i].sh, suf[i].s, suf[i].bits);
        }
    }
    for (int k = VF_SHARD; k < 64; k += VF_NSHARD) {
        vfh_scene_human(1ULL << k);
        vfh_scene_human((1ULL << k) + 1);
        vfh_scene_human((1ULL << k) - 1);
        vfh_scene_human((1ULL << k) + (1ULL << k) / 2);
        vfh_scene_human((1ULL << k) + (1ULL << k) / 20);
        vfh_scene_human((1ULL << k) + (1ULL << k) / 99);
        vfh_scene_human(U64MAX >> k);
        for (int sz = 1; sz <= 8; sz++) vfh_scene_hbuf(sz, (1ULL << k) + 5);
    }
#endif
#ifdef ANY
    for (int n = 0; n <= ANY; n++)
        for (int code = VF_SHARD; code < vf_pow(NELEM(vfh_cls), n); code += VF_NSHARD)
            for (int base = 0; base <= 36; base += base == 0 ? 10 : 26) vfh_scene_any(n, code, base, n > 2);
#endif
    return 0;
}
