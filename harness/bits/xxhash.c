#include "hashfunc/xxhash.c"
static uint64_t r_ld(const unsigned char *p, int n) { uint64_t v = 0; int i; for (i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint32_t r_r32(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint64_t r_r64(uint64_t x, int k) { return x << k | x >> (64 - k); }
static const uint32_t P32[6] = { 0, 0x9E3779B1u, 0x85EBCA77u, 0xC2B2AE3Du, 0x27D4EB2Fu, 0x165667B1u };
static const uint64_t P64[6] = { 0, 0x9E3779B185EBCA87ull, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x85EBCA77C2B2AE63ull, 0x27D4EB2F165667C5ull };
uint32_t ref_XXH32(const unsigned char *p, size_t n, uint32_t seed)
{
    uint32_t h, v[4] = { seed + P32[1] + P32[2], seed + P32[2], seed, seed - P32[1] };
    size_t i = 0;
    int j;
    if (n >= 16) {
        for (; i + 16 <= n; i += 16)
            for (j = 0; j < 4; j++) v[j] = r_r32(v[j] + (uint32_t)r_ld(p + i + 4 * j, 4) * P32[2], 13) * P32[1];
        h = r_r32(v[0], 1) + r_r32(v[1], 7) + r_r32(v[2], 12) + r_r32(v[3], 18);
    } else h = seed + P32[5];
    h += (uint32_t)n;
    for (; i + 4 <= n; i += 4) h = r_r32(h + (uint32_t)r_ld(p + i, 4) * P32[3], 17) * P32[4];
    for (; i < n; i++) h = r_r32(h + p[i] * P32[5], 11) * P32[1];
    h = (h ^ h >> 15) * P32[2];
    h = (h ^ h >> 13) * P32[3];
    return h ^ h >> 16;
}
static uint64_t r_rnd(uint64_t a, uint64_t x) { return r_r64(a + x * P64[2], 31) * P64[1]; }
uint64_t ref_XXH64(const unsigned char *p, size_t n, uint64_t seed)
{
    uint64_t h, v[4] = { seed + P64[1] + P64[2], seed + P64[2], seed, seed - P64[1] };
    size_t i = 0;
    int j;
    if (n >= 32) {
        for (; i + 32 <= n; i += 32)
            for (j = 0; j < 4; j++) v[j] = r_rnd(v[j], r_ld(p + i + 8 * j, 8));
        h = r_r64(v[0], 1) + r_r64(v[1], 7) + r_r64(v[2], 12) + r_r64(v[3], 18);
        for (j = 0; j < 4; j++) h = (h ^ r_rnd(0, v[j])) * P64[1] + P64[4];
    } else h = seed + P64[5];
    h += n;
    for (; i + 8 <= n; i += 8) h = r_r64(h ^ r_rnd(0, r_ld(p + i, 8)), 27) * P64[1] + P64[4];
    if (i + 4 <= n) { h = r_r64(h ^ r_ld(p + i, 4) * P64[1], 23) * P64[2] + P64[3]; i += 4; }
    for (; i < n; i++) h = r_r64(h ^ p[i] * P64[5], 11) * P64[1];
    h = (h ^ h >> 33) * P64[2];
    h = (h ^ h >> 29) * P64[3];
    return h ^ h >> 32;
}
static XXH32_state_t s32;
static XXH64_state_t s64;
uint32_t str_XXH32(const unsigned char *p, size_t n, uint32_t seed, size_t a, size_t b)
{
    XXH32_reset(&s32, seed);
    if (XXH32_update(&s32, p, a) != XXH_OK) return 0;
    if (XXH32_update(&s32, p + a, b - a) != XXH_OK) return 0;
    (void)XXH32_digest(&s32);           /* looking at it does not disturb it */
    if (XXH32_update(&s32, p + b, n - b) != XXH_OK) return 0;
    return XXH32_digest(&s32);
}
uint64_t str_XXH64(const unsigned char *p, size_t n, uint64_t seed, size_t a, size_t b)
{
    XXH64_reset(&s64, seed);
    if (XXH64_update(&s64, p, a) != XXH_OK) return 0;
    if (XXH64_update(&s64, p + a, b - a) != XXH_OK) return 0;
    (void)XXH64_digest(&s64);
    if (XXH64_update(&s64, p + b, n - b) != XXH_OK) return 0;
    return XXH64_digest(&s64);
}
void can_XXH32(unsigned char *o, uint32_t h) { XXH32_canonicalFromHash((XXH32_canonical_t *)o, h); }
void can_XXH64(unsigned char *o, uint64_t h) { XXH64_canonicalFromHash((XXH64_canonical_t *)o, h); }
uint32_t unc_XXH32(unsigned char *o) { return XXH32_hashFromCanonical((XXH32_canonical_t *)o); }
uint64_t unc_XXH64(unsigned char *o) { return XXH64_hashFromCanonical((XXH64_canonical_t *)o); }
