#include "hashfunc/hsieh_hash.c"
static uint32_t r_16(const unsigned char *p) { return p[0] | (uint32_t)p[1] << 8; }
static uint32_t r_s8(unsigned char c) { return (uint32_t)(int32_t)(signed char)c; }
uint32_t ref_hsieh_hash(const unsigned char *p, size_t n, uint32_t seed)
{
    uint32_t h = seed;
    if (n == 0) return 0;
    for (; n >= 4; n -= 4, p += 4) {
        h += r_16(p);
        h = (h << 16) ^ ((r_16(p + 2) << 11) ^ h);
        h += h >> 11;
    }
    if (n == 3) { h += r_16(p); h ^= h << 16; h ^= r_s8(p[2]) << 18; h += h >> 11; }
    else if (n == 2) { h += r_16(p); h ^= h << 11; h += h >> 17; }
    else if (n == 1) { h += r_s8(p[0]); h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6;
    return h;
}
