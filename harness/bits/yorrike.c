#include "hashfunc/yorrike.c"
static uint32_t r_rl5(uint32_t x) { return x << 5 | x >> 27; }
static uint32_t r_ld(const unsigned char *p, int n) { uint32_t v = 0; int i; for (i = 0; i < n; i++) v |= (uint32_t)p[i] << (8 * i); return v; }
/* FNV1A_Yorikke: 16 bytes a step in two lanes, then 8, 4, 2 and 1 bytes */
uint32_t ref_yorrike_hash32(const unsigned char *p, size_t n, uint32_t seed)
{
    uint32_t a = seed ? seed : 2166136261u, b = a;
    const uint32_t P = 709607;
    for (; n >= 16; n -= 16, p += 16) {
        a = (a ^ r_rl5(r_ld(p, 4)) ^ r_ld(p + 4, 4)) * P;
        b = (b ^ r_rl5(r_ld(p + 8, 4)) ^ r_ld(p + 12, 4)) * P;
    }
    if (n & 8) { a = (a ^ r_ld(p, 4)) * P; b = (b ^ r_ld(p + 4, 4)) * P; p += 8; }
    if (n & 4) { a = (a ^ r_ld(p, 2)) * P; b = (b ^ r_ld(p + 2, 2)) * P; p += 4; }
    if (n & 2) { a = (a ^ r_ld(p, 2)) * P; p += 2; }
    if (n & 1) a = (a ^ *p) * P;
    a = (a ^ r_rl5(b)) * P;
    return a ^ (a >> 16);
}
