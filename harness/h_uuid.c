/* UUID and ULID: text <-> bytes, version bits, time prefix, entropy errors. */
#include "vf.h"
#include <sys/time.h>
#include <sys/random.h>

static int vfh_ent_fail, vfh_ent_calls, vfh_ent_pin;
static size_t vfh_ent_n;
static int
vf_getentropy(void *p, size_t n)
{
    unsigned char *b = (unsigned char *)p;
    vfh_ent_calls++;
    PROVE(n <= 256);
    if (vfh_ent_fail) { errno = EIO; return -1; }
    for (size_t i = 0; i < n; i++) b[i] = vfh_ent_pin ? i * 15 + vfh_ent_pin : UBYTE();
    vfh_ent_n = n;
    return 0;
}
static long vfh_now_s, vfh_now_us;
static int vfh_time_fail;
static int
vf_gettimeofday(struct timeval *tv, void *z)
{
    if (vfh_time_fail) { errno = EINVAL; return -1; }
    tv->tv_sec = vfh_now_s; tv->tv_usec = vfh_now_us;
    return 0;
}
#define getentropy      vf_getentropy
#define gettimeofday(a,b) vf_gettimeofday(a,b)
#ifdef ULID
#include "ulid.c"
#else
#include "uuid.c"
#endif

static const char HEX[] = "0123456789ABCDEF";
static const char vfh_hex[] = "0123456789abcdef";
static const char B32[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/* the bits a scene is not about: none, all, two mixtures */
static int vfh_fill(int how, int k) { return how == 0 ? 0 : how == 1 ? 255 : how == 2 ? (k * 73 + 0x5a) & 255 : ~(k * 73 + 0x5a) & 255; }

#ifndef ULID
/* where digit d (0..31) is in the text */
static int vfh_place(int d) { return d + (d >= 8) + (d >= 12) + (d >= 16) + (d >= 20); }

/* digit d of the text shows nibble d = v, whatever the other nibbles */
static void
vfh_scene_to(int d, int v, int how)
{
    unsigned char u[16];
    char s[37];
    for (int i = 0; i < 16; i++) u[i] = vfh_fill(how, i);
    if (d % 2) u[d / 2] = (u[d / 2] & 0xf0) + v;
    else       u[d / 2] = v * 16 + (u[d / 2] & 15);
    PROVE(uuid_tostring(s, sizeof s, u) == 37);
    VF_reach();
    PROVE(s[vfh_place(d)] == HEX[v]);
    PROVE(s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-' && s[36] == 0);
    VF_END;
}

/* a bad character at digit d */
static void
vfh_scene_bad(int d, char c, int oth)
{
    unsigned char u[16];
    char s[37];
    for (int i = 0; i < 36; i++) s[i] = oth == 0 ? '0' + i % 10 : oth == 1 ? 'a' + i % 6 : 'A' + i % 6;
    s[8] = s[13] = s[18] = s[23] = '-'; s[36] = 0;
    s[vfh_place(d)] = c;
    int r = uuid_fromstring(u, sizeof u, s);
    VF_reach();
    PROVE(r == -EINVAL);
    VF_END;
}

/* every digit at every place: digit d is number (r + 5 * d) % 22 */
static void
vfh_scene_all(int r)
{
    static const char D[] = "0123456789abcdefABCDEF";
    unsigned char u[16];
    char s[37], t[37];
    for (int i = 0; i < 36; i++) s[i] = '-';
    for (int d = 0; d < 32; d++) s[vfh_place(d)] = D[(r + 5 * d) % 22];
    s[36] = 0;
    PROVE(uuid_fromstring(u, sizeof u, s) == 16);
    VF_reach();
    for (int d = 0; d < 32; d++) {
        int k = (r + 5 * d) % 22, v = k < 16 ? k : k - 6;
        PROVE(v == (d % 2 ? u[d / 2] & 15 : u[d / 2] >> 4));
    }
    PROVE(uuid_tostring(t, sizeof t, u) == 37);
    for (int i = 0; i < 37; i++) PROVE(t[i] == (s[i] >= 'a' ? s[i] - 32 : s[i]));
    VF_END;
}

/* texts of n characters, nd of them digits (the dashes first or last) */
static void
vfh_scene_len(int n, int nd, int first)
{
    unsigned char u[16];
    char s[48];
    for (int i = 0; i < n; i++) s[i] = (first ? i < n - nd : i >= nd) ? '-' : 'a';
    s[n] = 0;
    int r = uuid_fromstring(u, sizeof u, s);
    VF_reach();
    PROVE(r == (n == 36 && nd == 32 ? 16 : -EINVAL));
    VF_END;
}

/* the bits that are neither version nor variant are the entropy's */
static void vfh_ent_keep(const unsigned char *b) { for (int i = 0; i < 16; i++) PROVE(i == 6 || i == 8 || !vfh_ent_pin || b[i] == i * 15 + vfh_ent_pin); PROVE(!vfh_ent_pin || ((b[6] & 15) == ((90 + vfh_ent_pin) & 15) && (b[8] & 63) == ((120 + vfh_ent_pin) & 63))); }

static void
vfh_scene_gen(int sz, int fail)
{
    unsigned char u[20];
    unsigned char *b = &u[20 - sz];
    vfh_ent_fail = fail; vfh_ent_calls = 0;
    int r = uuid_generate(b, sz);
    if (sz < 16 || fail) { VF_reach(); PROVE(r < 0); VF_END; }
    VF_reach();
    PROVE(r == 16);
    PROVE((b[6] >> 4) == 4);
    PROVE((b[8] >> 6) == 2);
    vfh_ent_keep(b);
    VF_END;
}
#else

static int vfh_bit(const unsigned char *u, int k) { return (u[k / 8] >> (7 - k % 8)) & 1; }

/* character i of the text shows its 5 bits (3 for the first) = v, whatever the others */
static void
vfh_scene_to(int i, int v, int how)
{
    unsigned char u[16];
    char s[27];
    for (int k = 0; k < 16; k++) u[k] = vfh_fill(how, k);
    int b0 = i * 5 - 2;                     /* first bit, may be -2 */
    for (int k = 0; k < 16; k++) {
        /* the part of byte k in [b0, b0+5) */
        int lo = k * 8, hi = lo + 8;
        int f = b0 > lo ? b0 : lo, e = b0 + 5 < hi ? b0 + 5 : hi;
        if (f >= e) continue;
        int w = e - f;
        int part = (v >> (b0 + 5 - e)) & ((1 << w) - 1);
        int below = hi - e;
        u[k] = (u[k] & ~(((1 << w) - 1) << below)) | part << below;
    }
    PROVE(ulid_tostring(s, sizeof s, u) == 26);
    VF_reach();
    PROVE(s[i] == B32[v] && s[26] == 0);
    VF_END;
}

static void
vfh_scene_from(int i, char c, int v, int how)
{
    unsigned char u[16];
    char s[27];
    for (int k = 0; k < 26; k++) s[k] = B32[vfh_fill(how, k) & (k ? 31 : 7)];
    s[26] = 0;
    s[i] = c;
    int r = ulid_fromstring(u, sizeof u, s);
    if (v < 0 || (i == 0 && v > 7)) { VF_reach(); PROVE(r == -EINVAL); VF_END; }
    VF_reach();
    PROVE(r == 16);
    for (int k = 0; k < 5; k++) {
        int b = i * 5 - 2 + k;
        if (b >= 0) PROVE(vfh_bit(u, b) == ((v >> (4 - k)) & 1));
    }
    VF_END;
}

/* every digit at every place: digit i is number (r + 7 * i) % 54, but 0..7 for the first */
static void
vfh_scene_all(int r)
{
    static const char D[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZabcdefghjkmnpqrstvwxyz";
    unsigned char u[16];
    char s[27], t[27];
    for (int i = 0; i < 26; i++) s[i] = D[i ? (r + 7 * i) % 54 : r % 8];
    s[26] = 0;
    PROVE(ulid_fromstring(u, sizeof u, s) == 16);
    VF_reach();
    for (int b = 0; b < 128; b++) {
        int i = (b + 2) / 5, k = i ? (r + 7 * i) % 54 : r % 8, v = k < 32 ? k : k - 22;
        PROVE(vfh_bit(u, b) == ((v >> (4 - (b + 2) % 5)) & 1));
    }
    PROVE(ulid_tostring(t, sizeof t, u) == 26);
    for (int i = 0; i < 27; i++) PROVE(t[i] == (s[i] >= 'a' ? s[i] - 32 : s[i]));
    VF_END;
}

static void
vfh_scene_gen(long s, long us, int sz, int fail)
{
    unsigned char m[20];
    unsigned char *b = &m[20 - sz];
    vfh_now_s = s; vfh_now_us = us; vfh_ent_pin = 1 + s % 13; vfh_ent_n = 0;
    for (int i = 0; i < sz; i++) b[i] = vfh_ent_pin;
    vfh_ent_fail = fail == 1; vfh_time_fail = fail == 2;
    int r = ulid_generate(b, sz);
    if (sz < 16 || fail) { VF_reach(); PROVE(r < 0); VF_END; }
    VF_reach();
    uint64_t ms = (uint64_t)s * 1000 + us / 1000;
    PROVE(r == 16);
    for (int i = 0; i < 6; i++) PROVE(b[i] == (unsigned char)(ms >> (40 - 8 * i)));
    /* ten bytes of entropy, each used once */
    for (int i = 6; i < 16; i++) {
        PROVE(b[i] % 15 == vfh_ent_pin && b[i] / 15 < vfh_ent_n);
        for (int k = 6; k < i; k++) PROVE(b[i] != b[k]);
    }
    VF_END;
}
#endif

int main(void)
{
    for (int n = 0; n < 20; n++) {
        unsigned char u[16];
        char m[40];
        vf_anybuf(u, 16);
#ifdef ULID
        PROVE(ulid_fromstring(&u[16 - (n < 16 ? n : 15)], n < 16 ? n : 15, "01234567890123456789012345") == -ENOSPC);
#else
        PROVE(uuid_fromstring(&u[16 - (n < 16 ? n : 15)], n < 16 ? n : 15, "01234567-0123-0123-0123-0123456789ab") == -ENOSPC);
#endif
    }
    for (int n = 0; n < 40; n++) {
        unsigned char u[16];
        char m[40];
        vf_anybuf(u, 16);
#ifdef ULID
        PROVE((ulid_tostring(&m[40 - n], n, u) == -ENOSPC) == (n < 27));
#else
        PROVE((uuid_tostring(&m[40 - n], n, u) == -ENOSPC) == (n < 37));
#endif
    }
#ifdef ULID
    for (int i = VF_SHARD; i < 26; i += VF_NSHARD) {
        for (int v = 0; v < (i ? 32 : 8); v++) for (int h = 0; h < 4; h++) vfh_scene_to(i, v, h);
        for (int v = i % 4; v < (i ? 32 : 8); v += 5) for (int h = 0; h < 4; h++) vfh_scene_from(i, B32[v], v, h);
        if (i == 0) for (int v = 8; v < 32; v++) for (int h = 0; h < 4; h++) vfh_scene_from(i, B32[v], v, h);
        vfh_scene_all(i); vfh_scene_all(i + 26); if (i < 2) vfh_scene_all(i + 52);
        static const char bad[] = { '!', '/', ':', '@', '[', '`', '{', 'U', 'u', 'O', 'I', 'L', 'l', 'i', 'o', 127, -128, -1, '-', ' ' };
        for (int k = 0; k < sizeof bad; k++) for (int h = 0; h < 2; h++) vfh_scene_from(i, bad[k], -1, h + k % 3);
    }
    static const long secs[] = { 0, 1, 255, 256, 1700000000, 1L << 31, 1L << 32, 281474976710L };
    for (int i = 0; i < 8; i++) for (int f = 0; f < 3; f++) {
        vfh_scene_gen(secs[i], 0, 16, f);
        vfh_scene_gen(secs[i], 999999, 20 - i, f);
        vfh_scene_gen(secs[i] * 977 % 281474976710L, 123456, 20 - i - 5, f);
    }
#else
    for (int d = VF_SHARD; d < 32; d += VF_NSHARD) {
        for (int v = 0; v < 16; v++) {
            for (int h = 0; h < 4; h++) vfh_scene_to(d, v, h);
        }
        if (d < 22) vfh_scene_all(d);
        static const char bad[] = { '!', '/', ':', '@', 'G', '`', 'g', 127, -128, -1, ' ', '-' };
        for (int k = 0; k < sizeof bad; k++) if ((d + k) % 3 == 0 || k > 6) vfh_scene_bad(d, bad[k], (d + k) % 3);
    }
    for (int n = 34; n < 39; n++) for (int nd = 0; nd <= n; nd++) { vfh_scene_len(n, nd, 0); vfh_scene_len(n, nd, 1); }
    for (int sz = 0; sz <= 20; sz += sz == 14 || sz == 15 ? 1 : 2) for (int f = 0; f < 2; f++) { vfh_scene_gen(sz, f); }
    for (vfh_ent_pin = 1; vfh_ent_pin < 16; vfh_ent_pin++) vfh_scene_gen(16, 0);
#endif
    return 0;
}
