#include "hashfunc/fnvhash.c"
uint32_t ref_fnv_hash(const unsigned char *p, size_t n, uint32_t seed)
{
    uint32_t h = 0x811c9dc5u;
    while (n--) h = (h ^ *p++) * 0x01000193u;
    return h;
}
uint64_t ref_fnv_hash64(const unsigned char *p, size_t n, uint64_t seed)
{
    uint64_t h = 0xcbf29ce484222325ull;
    while (n--) h = (h ^ *p++) * 0x100000001b3ull;
    return h;
}
