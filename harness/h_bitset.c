/* bitset.h: one bit at a time, whole-set operations word by word, nothing outside the words. */
#include "vf.h"
#include "vf_heap.h"
#include <alloca.h>
static char vfh_arena_[256];
#define alloca(n) ((void *)&vfh_arena_[256 - (n)])
#include "fast/bitset.h"

#define ANY64() ((uint64_t)NONDET(0, 0xffffffff) << 32 | (uint32_t)NONDET(0, 0xffffffff))
static int vfh_bit(const bitset *b, size_t i) { return (b->w[i / 64] >> (i % 64)) & 1; }

/* every bit alone, on any surrounding pattern of the same kind */
static void
vfh_scene_bit(size_t nb, size_t i, uint64_t pat)
{
    vf_heap_reset();
    bitset *b = bitset_new(nb);
    size_t words = (nb + 63) / 64;
    PROVE(b->n == words);
    for (size_t k = 0; k < words; k++) PROVE(b->w[k] == 0);
    for (size_t k = 0; k < words; k++) b->w[k] = pat;
    uint64_t m = (uint64_t)1 << (i % 64);
    PROVE(!bitset_isset(b, i) == !(pat & m) && !bitset_value(b, i) == !(pat & m));
    bitset_set(b, i);
    for (size_t k = 0; k < words; k++) PROVE(b->w[k] == (k == i / 64 ? pat | m : pat));
    PROVE(bitset_isset(b, i));
    bitset_clr(b, i);
    for (size_t k = 0; k < words; k++) PROVE(b->w[k] == (k == i / 64 ? pat & ~m : pat));
    PROVE(!bitset_isset(b, i));
    VF_reach();
    bitset_del(b);
    PROVE(vf_live == 0);
    VF_END;
}

/* word by word, all 256 byte pairs by 16 pattern pairs */
static void
vfh_scene_ops(size_t nb, int op, uint64_t x, uint64_t y)
{
    vf_heap_reset();
    bitset *a = bitset_new(nb), *b = bitset_new(nb);
    size_t words = (nb + 63) / 64;
    for (size_t k = 0; k < words; k++) { a->w[k] = x + k; b->w[k] = y ^ k; }
    switch (op) {
        case 0: bitset_or(a, b); break;
        case 1: bitset_and(a, b); break;
        case 2: bitset_xor(a, b); break;
        case 3: bitset_andnot(a, b); break;
        case 4: bitset_not(a); break;
        case 5: bitset_copy(a, b); break;
    }
    VF_reach();
    for (size_t k = 0; k < words; k++) {
        uint64_t p = x + k, q = y ^ k;
        PROVE(a->w[k] == (op == 0 ? p | q : op == 1 ? p & q : op == 2 ? p ^ q : op == 3 ? p & ~q : op == 4 ? ~p : q));
        PROVE(b->w[k] == q);
    }
    PROVE(a->n == words && b->n == words);
    bitset *c = bitset_dup(a);
    PROVE(c->n == words && c != a);
    for (size_t k = 0; k < words; k++) PROVE(c->w[k] == a->w[k]);
    bitset *d = bitset_dup_alloca(a);
    PROVE(d->n == words);
    for (size_t k = 0; k < words; k++) PROVE(d->w[k] == a->w[k]);
    bitset_del(a); bitset_del(b); bitset_del(c);
    PROVE(vf_live == 0);
    bitset *e = bitset_alloca(nb);
    PROVE(e->n == words);
    for (size_t k = 0; k < words; k++) PROVE(e->w[k] == 0);
    VF_END;
}

int main(void)
{
    static const uint64_t pats[] = { 0, ~(uint64_t)0, 0xaaaaaaaaaaaaaaaaUL, 0x5555555555555555UL };
    static const size_t nbs[] = { 1, 63, 64, 65, 127, 128, 129, 200 };
    for (int k = VF_SHARD; k < NELEM(nbs); k += VF_NSHARD)
        for (size_t i = 0; i < nbs[k]; i++)
            if (k == 7 || i == nbs[k] - 1 || i % 63 == 0) vfh_scene_bit(nbs[k], i, pats[(i + k) % 4]);
    for (int i = 0; i < 64; i++) for (int p = 0; p < 4; p++) vfh_scene_bit(64, i, pats[p]);
    static const uint64_t xs[] = { 0, ~(uint64_t)0, 0x00ff00ff00ff00ffUL, 0xf0f0f0f0f0f0f0f0UL, 0x123456789abcdef0UL, (uint64_t)1 << 63 };
    for (int op = VF_SHARD; op < 6; op += VF_NSHARD)
        for (int i = 0; i < NELEM(xs); i++) for (int j = 0; j < NELEM(xs); j++) vfh_scene_ops(nbs[(i + j) % 8], op, xs[i], xs[j]);
    return 0;
}
