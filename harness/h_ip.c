#include "vf.h"
#include "vf_printf.h"
#include "parse-ip.c"

/* text of v, no leading zeros */
static int
vfh_dec(char *s, unsigned v)
{
    char t[12];
    int n = 0, k = 0;
    do { t[n++] = '0' + v % 10; v /= 10; } while (v);
    while (n > 0) s[k++] = t[--n];
    return k;
}

/* octet k is v (in any decimal form), the others are o; optional mask */
static void
vfh_scene_val(int k, unsigned v, unsigned o, int mask)
{
    char s[40];
    int n = 0;
    uint32_t a = 77, m = 77;

    uint32_t exp = 0;
    for (int i = 0; i < 4; i++) {
        unsigned x = i == k ? v : o;
        if (i) s[n++] = '.';
        n += vfh_dec(s + n, x);
        exp = exp * 256 + x;
    }
    s[n] = 0;
    int r = parse_ipv4(&a, s);
    if (v > 255) { VF_reach(); PROVE(r == 0); }
    else { VF_reach(); PROVE(r != 0 && a == exp); }

    a = 77;
    if (mask >= 0) { s[n++] = '/'; n += vfh_dec(s + n, mask); s[n] = 0; }
    r = parse_ipv4_and_mask(&a, &m, s);
    if (v > 255 || mask > 32) { VF_reach(); PROVE(r == 0); }
    else {
        VF_reach();
        PROVE(r != 0 && a == exp);
        PROVE(m == (mask < 0 ? 0xffffffffU : (uint32_t)(((uint64_t)0xffffffff << 32) >> mask)));
        char b[16];
        PROVE(str_ipv4(b, sizeof b, a) == b);
        uint32_t a2 = 1;
        PROVE(parse_ipv4(&a2, b) != 0 && a2 == a);
    }
    VF_END;
}

/* dotted masks */
static void
vfh_scene_dotted(int z)
{
    char s[40] = "1.2.3.4/";
    int n = 8;
    uint32_t a = 0, m = 0, c = 99;
    uint32_t mk = (uint32_t)(((uint64_t)0xffffffff << 32) >> z);

    str_ipv4(s + n, sizeof s - n, mk);
    int r = parse_ipv4_and_mask(&a, &m, s);
    VF_reach();
    PROVE(r != 0 && a == 0x01020304 && m == mk);
    PROVE(mask_to_cidr4(mk, &c) != 0 && c == z);
    VF_END;
}

/* every mask that is not contiguous: p leading ones, a zero, highest later one at bit q */
static void
vfh_scene_badmask(int p, int q)
{
    uint32_t base = (uint32_t)(((uint64_t)0xffffffff << 32) >> p) | ((uint32_t)1 << q);
    uint32_t low = 0, c = 99;
    if (q > 0) low = (uint32_t)Frama_C_unsigned_int_interval(0, ((uint32_t)1 << q) - 1);
    int r = mask_to_cidr4(base + low, &c);
    VF_reach();
    PROVE(r == 0);
    VF_END;
}

/* strings that are not addresses or masks */
static const char * const vfh_bad[] = {
    "", ".", "1", "1.2", "1.2.3", "1.2.3.", ".1.2.3", "1..2.3", "1.2..3", "1.2.3.4.", "1.2.3.4.5", "1.2.3.4..",
    "256.1.1.1", "1.1.1.256", "1.1.1.1000", "0001.1.1.1", "1.1.1.a", "1.1.1.1 ", " 1.1.1.1", "1.1.-1.1", "1.1.1.\xb2",
    "99999999999999999999.1.1.1", "+1.1.1.1", "1,1,1,1", "0x1.1.1.1", "...",
};
static const char * const vfh_badmask[] = {
    "33", "99", "-1", "a", "4294967296", "4294967328", "18446744073709551616", "18446744073709551640", "1 ", "\xb2",
    "255.255.255", "255.255.255.256", "1.2.3.4.5", "0000000000000000000000000000000000008", "/8", "8/", "00000000000000000000000000000033",
};

static void
vfh_scene_bad(const char *s)
{
    uint32_t a, m;
    VF_reach();
    PROVE(parse_ipv4(&a, s) == 0);
    PROVE(parse_ipv4_and_mask(&a, &m, s) == 0);
    VF_END;
}

static void
vfh_scene_badm(const char *s)
{
    uint32_t a, m;
    char b[80] = "10.20.30.40/";
    int i;
    for (i = 0; s[i]; i++) b[12+i] = s[i];
    b[12+i] = 0;
    VF_reach();
    PROVE(parse_ipv4_and_mask(&a, &m, b) == 0);
    VF_END;
}

/* every string of up to SN bytes over these classes */
static const struct vf_cls vfh_cls[] = { { '0', '9' }, { '.', '.' }, { ':', 127 }, { -128, -1 }, { 1, '-' } };

static void
vfh_scene_any(int n, int code, int nc)
{
    char s[SN + 2];
    unsigned char cv[SN + 2];
    uint32_t a = 77, m = 77;

    vf_clsstr(s, cv, n, code, vfh_cls, nc, 0);
    int oct = 0, len = 0, ok = 1, sure = 1;
    for (int i = 0; i <= n; i++) {
        if (i == n || cv[i] == 1) {
            if (len == 0 || len > 3) ok = 0;
            if (len == 3) sure = 0;         /* may exceed 255 */
            oct++;
            len = 0;
        } else if (cv[i] == 0) len++;
        else ok = 0;
    }
    if (oct != 4) ok = 0;
    int r = parse_ipv4(&a, s);
    if (!ok) { VF_reach(); PROVE(r == 0); }
    else if (sure) { VF_reach(); PROVE(r != 0); }
    parse_ipv4_and_mask(&a, &m, s);
    VF_END;
}

/* long strings of anything: stays in bounds */
static void
vfh_scene_long(int slash, int n)
{
    char s[64];
    uint32_t a, m;
    for (int i = 0; i < n; i++) s[i] = i == slash ? '/' : (i % 4 == 3 && i < 15 ? '.' : '1');
    s[n] = 0;
    VF_reach();
    parse_ipv4(&a, s);
    parse_ipv4_and_mask(&a, &m, s);
    VF_END;
}

int main(void)
{
#ifdef ANY
    for (int n = 0; n <= SN; n++) {
        int nc = n > 4 ? 2 : 5;
        for (int code = VF_SHARD; code < vf_pow(nc, n); code += VF_NSHARD) vfh_scene_any(n, code, nc);
    }
    for (int sl = 0; sl < 40; sl++)
        for (int n = sl + 1; n < 63; n += 1 + (n % 3 == 2) * 13) vfh_scene_long(sl, n);
#else
    static const unsigned others[] = { 0, 7, 99, 255 };
    for (int k = 0; k < 4; k++)
        for (unsigned v = VF_SHARD; v < 300; v += VF_NSHARD)
            vfh_scene_val(k, v, others[(v / 4) % 4], (int)((v + k) % 40) - 1);
    for (int z = 0; z <= 32; z++) vfh_scene_dotted(z);
    for (int p = 0; p <= 31; p++)
        for (int q = 0; q < 31 - p; q++) vfh_scene_badmask(p, q);
    for (int i = 0; i < NELEM(vfh_bad); i++) vfh_scene_bad(vfh_bad[i]);
    for (int i = 0; i < NELEM(vfh_badmask); i++) vfh_scene_badm(vfh_badmask[i]);
#endif
    return 0;
}
