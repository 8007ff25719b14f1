/* fast-ht: every table content and operation against a map. */
#include "vf.h"
#define HEAP_SIZE 2048
#define HEAP_SLOTS 32
#include "vf_heap.h"
#include <unistd.h>
#ifdef NOSIMD
#define ___FAST_SIMD_H__geTEq1VjplXcRszm___ 1
#define __NO_SIMD__ 1
#define SIMD_PREFETCH_T0(a) ((void)(a))
#else
/* the vector instructions, byte by byte */
#define ___FAST_SIMD_H__geTEq1VjplXcRszm___ 1
typedef struct { uint8_t b[16]; } simd_vec128_t;
static simd_vec128_t vfh_vec_set(uint64_t hi, uint64_t lo) { simd_vec128_t r; for (int i = 0; i < 8; i++) { r.b[i] = lo >> 8 * i; r.b[8 + i] = hi >> 8 * i; } return r; }
static simd_vec128_t vfh_vec_set1(uint8_t x) { simd_vec128_t r; for (int i = 0; i < 16; i++) r.b[i] = x; return r; }
static simd_vec128_t vfh_vec_eq(simd_vec128_t x, simd_vec128_t y) { for (int i = 0; i < 16; i++) x.b[i] = x.b[i] == y.b[i] ? 0xff : 0; return x; }
static int vfh_vec_mask(simd_vec128_t x) { int m = 0; for (int i = 0; i < 16; i++) m |= (x.b[i] >> 7) << i; return m; }
#define SIMD_SET_EPI64X(hi, lo)   vfh_vec_set(hi, lo)
#define SIMD_SET1_EPI8(x)         vfh_vec_set1(x)
#define SIMD_CMPEQ_EPI8(a, b)     vfh_vec_eq(a, b)
#define SIMD_MOVEMASK_EPI8(a)     vfh_vec_mask(a)
#define SIMD_PREFETCH_T0(a)       ((void)(a))
#endif
static int vfh_ctz_(unsigned x) { for (int i = 0; i < 32; i++) if (x >> i & 1) return i; VF_fail(); return 0; }
#define __builtin_ctz(x)  vfh_ctz_(x)
static int
vf_memalign(void **p, size_t a, size_t n)
{
    PROVE(a == 64);
    *p = vf_malloc(n);
    return *p ? 0 : ENOMEM;
}
#define posix_memalign vf_memalign
static uint64_t vfh_salt_;
static int vf_getentropy(void *p, size_t n) { PROVE(n == 8); *(uint64_t *)p = vfh_salt_; vfh_salt_ = vfh_salt_ * 0x9E3779B97F4A7C15UL + 1; return 0; }
#define getentropy vf_getentropy
#include "utils/nospec.h"
#undef OPTIMIZER_HIDE_VAR
#define OPTIMIZER_HIDE_VAR(v)  ((void)0)     /* asm without instructions */
#include "src/hashtable/fast-ht.c"

/* the map: key i present, with value */
#define NK   12
static const uint64_t K[NK] = {     /* same and different fingerprints, same high bits, tiny, huge, one bit apart */
    0x1111111111111101UL, 0x2222222222222201UL, 0x1111111111111100UL, 1, 0xffffffffffffffffUL, 0x80000000000000ffUL,
    0x100, 0x1111111111111102UL, 0x3333333333333301UL, 0x7f01, 0x8000000000000000UL, 0x4444444444444401UL };
static char  vfh_in_[NK];
static void *vfh_val_[NK];
static char  vfh_objs[64];

static void
vfh_sees(ht *h)
{
    uint64_t n = 0, bn = 0, fill = 0;
    for (int i = 0; i < NK; i++) {
        void *v = &vfh_objs[63];
        int r = ht_find(h, K[i], &v);
        PROVE(!r == !vfh_in_[i]);
        if (vfh_in_[i]) { PROVE(v == vfh_val_[i]); n++; }
        else PROVE(v == &vfh_objs[63]);
    }
    PROVE(h->nodes == n);
    for (uint64_t i = 0; i < h->n; i++) {
        hb *b = &h->b[i];
        uint32_t bags = 0, used = 0;
        bn += b->nodes;
        fill += b->nodes > 0;
        bag *g;
        SL_FOREACH(g, &b->head, link) {
            bags++;
            for (int s = 0; s < FASTHT_BAGSZ; s++) used += !(g->fp >> (56 + s) & 1);
        }
        PROVE(bags == b->bags && used == b->nodes);
        PROVE(b->bags <= h->bagmax && b->nodes <= h->maxn);
    }
    PROVE(bn == n);
    PROVE(h->fill == fill);
}

static void vfh_probe(ht *h, int i, void *v) { void *r = ht_probe(h, K[i], v); if (vfh_in_[i]) PROVE(r == vfh_val_[i]); else { PROVE(r == 0); vfh_in_[i] = 1; vfh_val_[i] = v; } }
static void vfh_removek(ht *h, int i, int want) { void *v = &vfh_objs[63]; int r = ht_remove(h, K[i], want ? &v : 0); PROVE(!r == !vfh_in_[i]); if (want) PROVE(v == (vfh_in_[i] ? vfh_val_[i] : (void *)&vfh_objs[63])); vfh_in_[i] = 0; }

/* m keys in, then remove a, then b, put b back, replace c */
static void
vfh_scene(uint32_t size, uint32_t maxfill, uint64_t salt, int m, int a, int b, int c)
{
    ht h0, *h = &h0;
    vf_heap_reset();
    for (int i = 0; i < NK; i++) vfh_in_[i] = 0;
    /* with a single bucket, any salt */
    vfh_salt_ = size == 1 && maxfill >= 1000 ? Frama_C_unsigned_long_interval(0, -1UL) : salt;
    if (m & 1) { h = ht_new(size, maxfill); } else PROVE(ht_init(h, size, maxfill) == h);
    PROVE(h->n >= size && (h->n & (h->n - 1)) == 0 && h->nodes == 0);
    uint64_t n0 = h->n;
    for (int i = 0; i < m; i++) {
        /* one null value */
        vfh_probe(h, i, i == 2 ? 0 : &vfh_objs[i]);
        if (i == a) { vfh_probe(h, i, &vfh_objs[40]); vfh_probe(h, 0, 0); }
    }
    vfh_sees(h);
    vfh_removek(h, a, 1);
    vfh_removek(h, b, 0);
    vfh_removek(h, a, b & 1);
    vfh_sees(h);
    vfh_probe(h, b, &vfh_objs[30 + b]);
    { int r = ht_replace(h, K[c], &vfh_objs[50]); PROVE(!r == !vfh_in_[c]); if (vfh_in_[c]) vfh_val_[c] = &vfh_objs[50]; }
    VF_reach();
    vfh_sees(h);
    if (maxfill >= 1000) PROVE(h->n == n0);
    if (m & 1) ht_del(h); else ht_fini(h);
    PROVE(vf_live == 0);
    VF_END;
}

/* putting in and taking out does not grow the table, nor a bucket */
static void
vfh_scene_churn(int rounds)
{
    ht h;
    vf_heap_reset();
    for (int i = 0; i < NK; i++) vfh_in_[i] = 0;
    vfh_salt_ = rounds;
    ht_init(&h, 8, 0);
    vfh_probe(&h, 0, &vfh_objs[0]);
    for (int i = 0; i < rounds; i++) { vfh_probe(&h, 1 + i % 3, &vfh_objs[1]); vfh_removek(&h, 1 + i % 3, i & 1); }
    VF_reach();
    PROVE(h.n == 8 && h.splits == 0);
    vfh_sees(&h);
    /* seven to a bag */
    ht g;
    ht_init(&g, 1, 1000);
    for (int i = 0; i < NK; i++) vfh_in_[i] = 0;
    for (int i = 0; i < 9; i++) { vfh_probe(&g, i, &vfh_objs[i]); PROVE(g.b[0].bags == (i + 7) / 7); }
    vfh_sees(&g);
    ht_fini(&h); ht_fini(&g);
    PROVE(vf_live == 0);
    VF_END;
}

int main(void)
{
    int k_ = 0;
    static const int ms[] = { 0, 1, 3, 7, 8, 9 };
    static const struct { uint32_t size, fill; } cfg[] = { { 1, 1000 }, { 2, 1000 }, { 1, 0 }, { 2, 50 }, { 3, 85 } };
    for (int g = 0; g < NELEM(cfg); g++)
        for (int s = 0; s < SALTS; s++)
            for (int j = 0; j < NELEM(ms); j++)
                for (int a = 0; a <= ms[j]; a += STEP)
                    for (int b = 0; b <= ms[j]; b += b == a ? 1 : STEP)
                        if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene(cfg[g].size, cfg[g].fill, s * 0x123456789abcdef1UL, ms[j], a, b, (a + b + s) % NK);
    if (VF_SHARD == 0) { vfh_scene(0, 0, 5, 5, 1, 2, 3); }
    vfh_scene_churn(20);
    return 0;
}
