#include "prng/xorshift.c"
#include "prng/xoroshiro.c"
#include "prng/romu-rand.c"
#include "prng/frand.c"

/* published generators, written independently */
static uint64_t r_rot(uint64_t x, int k) { return (x >> (64 - k)) | (x << k); }

uint64_t ref_splitmix64(uint64_t *st)
{
    uint64_t z = (*st = *st + 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t ref_xs64star(uint64_t *x)
{
    uint64_t v = x[0];
    v ^= v >> 12; v ^= v << 25; v ^= v >> 27;
    x[0] = v;
    return v * 2685821657736338717ull;
}
uint64_t ref_xs128plus(uint64_t *s)
{
    uint64_t s1 = s[0], s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
}
uint64_t ref_xoro128plus(uint64_t *s)
{
    uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
    s1 ^= s0;
    s[0] = r_rot(s0, 55) ^ s1 ^ (s1 << 14);
    s[1] = r_rot(s1, 36);
    return r;
}
uint64_t ref_xs1024star(uint64_t *s, unsigned *p)
{
    uint64_t s0 = s[*p], s1;
    *p = (*p + 1) & 15;
    s1 = s[*p];
    s1 ^= s1 << 31;
    s1 ^= s1 >> 11;
    s0 ^= s0 >> 30;
    s[*p] = s0 ^ s1;
    return (s0 ^ s1) * 1181783497276652981ull;
}
uint64_t ref_romu_quad(uint64_t *s)
{
    uint64_t w = s[0], x = s[1], y = s[2], z = s[3];
    s[0] = 15241094284759029579ull * z;
    s[1] = z + r_rot(w, 52);
    s[2] = y - x;
    s[3] = r_rot(y + w, 19);
    return x;
}
uint64_t ref_romu_trio(uint64_t *s)
{
    uint64_t x = s[1], y = s[2], z = s[3];
    s[1] = 15241094284759029579ull * z;
    s[2] = r_rot(y - x, 12);
    s[3] = r_rot(z - y, 44);
    return x;
}
uint64_t ref_romu_duo(uint64_t *s)
{
    uint64_t x = s[1], y = s[2];
    s[1] = 15241094284759029579ull * y;
    s[2] = r_rot(y, 36) + r_rot(y, 15) - x;
    return x;
}
uint64_t u_splitmix64(uint64_t *x) { return splitmix64(x); }
size_t lay(int i)
{
    switch (i) {
        case 0: return sizeof(xs64star);
        case 1: return sizeof(xs128plus);
        case 2: return sizeof(xs1024star);
        case 3: return sizeof(xoro128plus);
        case 4: return sizeof(romu);
        case 5: return offsetof(xs1024star, v);
        case 6: return offsetof(xs1024star, p);
        case 7: return offsetof(xoro128plus, v0);
        case 8: return offsetof(xoro128plus, v1);
        case 9: return offsetof(romu, w);
        case 10: return offsetof(romu, x);
        case 11: return offsetof(romu, y);
        case 12: return offsetof(romu, z);
        case 13: return offsetof(xs64star, v);
        case 14: return offsetof(xs128plus, v);
        default: return 0;
    }
}
