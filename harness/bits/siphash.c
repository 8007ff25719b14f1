#include "hashfunc/siphash24.c"
static uint64_t r_r64(uint64_t x, int k) { return x << k | x >> (64 - k); }
static void r_round(uint64_t *v, int n)
{
    while (n--) {
        v[0] += v[1]; v[1] = r_r64(v[1], 13); v[1] ^= v[0]; v[0] = r_r64(v[0], 32);
        v[2] += v[3]; v[3] = r_r64(v[3], 16); v[3] ^= v[2];
        v[0] += v[3]; v[3] = r_r64(v[3], 21); v[3] ^= v[0];
        v[2] += v[1]; v[1] = r_r64(v[1], 17); v[1] ^= v[2]; v[2] = r_r64(v[2], 32);
    }
}
uint64_t ref_siphash24(const unsigned char *p, size_t n, const uint64_t *k)
{
    uint64_t v[4] = { k[0] ^ 0x736f6d6570736575ull, k[1] ^ 0x646f72616e646f6dull, k[0] ^ 0x6c7967656e657261ull, k[1] ^ 0x7465646279746573ull }, m;
    size_t i, j;
    for (i = 0; i <= n; i += 8) {
        m = 0;
        for (j = 0; j < 8 && i + j < n; j++) m |= (uint64_t)p[i + j] << (8 * j);
        if (i + 8 > n) m |= (uint64_t)n << 56;
        v[3] ^= m; r_round(v, 2); v[0] ^= m;
    }
    v[2] ^= 0xff;
    r_round(v, 4);
    return v[0] ^ v[1] ^ v[2] ^ v[3];
}
