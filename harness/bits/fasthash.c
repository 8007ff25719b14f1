#include "hashfunc/fasthash.c"
static uint64_t r_mix(uint64_t h) { h ^= h >> 23; h *= 0x2127599bf4325c37ull; return h ^ (h >> 47); }
uint64_t ref_fasthash64(const unsigned char *p, size_t n, uint64_t seed)
{
    uint64_t h = seed ^ (n * 0x880355f21e6d1965ull), v;
    size_t i, j;
    for (i = 0; i < n; i += 8) {
        for (v = 0, j = 0; j < 8 && i + j < n; j++) v |= (uint64_t)p[i + j] << (8 * j);
        h = (h ^ r_mix(v)) * 0x880355f21e6d1965ull;
    }
    return r_mix(h);
}
uint32_t ref_fasthash32(const unsigned char *p, size_t n, uint32_t seed)
{
    uint64_t h = ref_fasthash64(p, n, seed);
    return (uint32_t)(h - (h >> 32));
}
