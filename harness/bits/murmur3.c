#include "hashfunc/murmur3_hash.c"
static uint32_t r_r32(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint64_t r_r64(uint64_t x, int k) { return x << k | x >> (64 - k); }
static uint64_t r_le(const unsigned char *p, size_t n) { uint64_t v = 0; size_t i; for (i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint32_t r_f32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
static uint64_t r_f64(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; return k ^ k >> 33; }
static size_t r_part(size_t i, size_t w, size_t n) { return i * w >= n ? 0 : n - i * w < w ? n - i * w : w; }
uint32_t ref_murmur3_hash_32(const unsigned char *p, size_t n, uint32_t seed)
{
    uint32_t h = seed, k;
    size_t i, b = n / 4;
    for (i = 0; i < b; i++) {
        k = (uint32_t)r_le(p + 4 * i, 4) * 0xcc9e2d51u;
        h ^= r_r32(k, 15) * 0x1b873593u;
        h = r_r32(h, 13) * 5 + 0xe6546b64u;
    }
    if (n & 3) { k = (uint32_t)r_le(p + 4 * b, n & 3) * 0xcc9e2d51u; h ^= r_r32(k, 15) * 0x1b873593u; }
    return r_f32(h ^ (uint32_t)n);
}
void ref_murmur3_hash_128(uint64_t *out, const unsigned char *p, size_t n, uint32_t seed)
{
    static const uint32_t c[4] = { 0x239b961bu, 0xab0e9789u, 0x38b34ae5u, 0xa1e38b93u };
    static const int rk[4] = { 15, 16, 17, 18 }, rh[4] = { 19, 17, 15, 13 };
    static const uint32_t ad[4] = { 0x561ccd1bu, 0x0bcaa747u, 0x96cd1c35u, 0x32ac3b17u };
    uint32_t h[4] = { seed, seed, seed, seed };
    size_t i, b = n / 16;
    int j;
    for (i = 0; i < b; i++)
        for (j = 0; j < 4; j++) {
            h[j] ^= r_r32((uint32_t)r_le(p + 16 * i + 4 * j, 4) * c[j], rk[j]) * c[(j + 1) & 3];
            h[j] = (r_r32(h[j], rh[j]) + h[(j + 1) & 3]) * 5 + ad[j];
        }
    for (j = 3; j >= 0; j--) {
        size_t t = r_part(j, 4, n & 15);
        if (t) h[j] ^= r_r32((uint32_t)r_le(p + 16 * b + 4 * j, t) * c[j], rk[j]) * c[(j + 1) & 3];
    }
    for (j = 0; j < 4; j++) h[j] ^= (uint32_t)n;
    h[0] += h[1] + h[2] + h[3]; h[1] += h[0]; h[2] += h[0]; h[3] += h[0];
    for (j = 0; j < 4; j++) h[j] = r_f32(h[j]);
    h[0] += h[1] + h[2] + h[3]; h[1] += h[0]; h[2] += h[0]; h[3] += h[0];
    out[0] = (uint64_t)h[0] << 32 | h[1];
    out[1] = (uint64_t)h[2] << 32 | h[3];
}
void ref_murmur3_hash64_128(uint64_t *out, const unsigned char *p, size_t n, uint32_t seed)
{
    static const uint64_t c[2] = { 0x87c37b91114253d5ull, 0x4cf5ad432745937full };
    uint64_t h0 = seed, h1 = seed;
    size_t i, b = n / 16;
    for (i = 0; i < b; i++) {
        h0 ^= r_r64(r_le(p + 16 * i, 8) * c[0], 31) * c[1];
        h0 = (r_r64(h0, 27) + h1) * 5 + 0x52dce729;
        h1 ^= r_r64(r_le(p + 16 * i + 8, 8) * c[1], 33) * c[0];
        h1 = (r_r64(h1, 31) + h0) * 5 + 0x38495ab5;
    }
    n &= 15;
    if (n > 8) h1 ^= r_r64(r_le(p + 16 * b + 8, n - 8) * c[1], 33) * c[0];
    if (n) h0 ^= r_r64(r_le(p + 16 * b, n > 8 ? 8 : n) * c[0], 31) * c[1];
    n += 16 * b;
    h0 ^= n; h1 ^= n; h0 += h1; h1 += h0;
    h0 = r_f64(h0); h1 = r_f64(h1);
    h0 += h1; h1 += h0;
    out[0] = h0; out[1] = h1;
}
void u_murmur3_hash_128(uint64_t *out, const unsigned char *p, size_t n, uint32_t seed) { uint_128_t r = murmur3_hash_128(p, n, seed); out[0] = r.v[0]; out[1] = r.v[1]; }
void u_murmur3_hash64_128(uint64_t *out, const unsigned char *p, size_t n, uint32_t seed) { uint_128_t r = murmur3_hash64_128(p, n, seed); out[0] = r.v[0]; out[1] = r.v[1]; }
