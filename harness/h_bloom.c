/* Bloom filters: what was put in is found, whatever its hash */
#include "vf.h"
#define HEAP_SIZE 4096
#define HEAP_SLOTS 24
#include "vf_heap.h"
#include <unistd.h>
#include <sys/random.h>
static uint64_t vfh_salt_;
static int vf_getentropy(void *p, size_t n) { PROVE(n == 8); *(uint64_t *)p = vfh_salt_; return 0; }
#define getentropy vf_getentropy
static void *vfh_map_; static size_t mapsz_;
static int vf_munmap(void *p, size_t n) { PROVE(vfh_map_ && p == vfh_map_ && n == mapsz_); vfh_map_ = 0; return 0; }
#define munmap vf_munmap
#include "src/hashtable/bloom.c"

#define NV 10
static const uint64_t V[NV] = { 0, 1, 0xffffffffffffffffUL, 0x123456789abcdef0UL, 2, 0x8000000000000000UL, 0x100000000UL, 77, 78, 0xdeadbeefcafef00dUL };
static const uint64_t Z[] = { 0, 0xffffffffffffffffUL, 0xffffffffUL, 0xffffffff00000000UL, 0x100000001UL, 0x0123456789abcdefUL };
static int vfh_put_[NV];

static void
vfh_found(Bloom *b)
{
    for (int i = 0; i < NV; i++)
        if (vfh_put_[i]) PROVE(Bloom_find(b, V[i]));
}

static Bloom *
vfh_mk(Bloom *st, int kind, uint64_t n, double e)
{
    Bloom *b;
    if (kind == 0)  b = st ? Standard_bloom_init(st, n, e, 0) : Standard_bloom_new(n, e, 0);
    else if (kind == 1) b = st ? Standard_bloom_init(st, n, e, 1) : Standard_bloom_new(n, e, 1);
    else            b = st ? Counting_bloom_init(st, n, e) : Counting_bloom_new(n, e);
    PROVE(b != 0 && (!st || b == st));
    PROVE(b->typ == (kind == 0 ? BLOOM_TYPE_QUICK : kind == 1 ? BLOOM_TYPE_SCALE : BLOOM_TYPE_COUNTING));
    PROVE(b->n == n);
    bloom *f = kind == 1 ? ((scalable_bloom *)b->filter)->bfa : b->filter;
    PROVE(f->k >= 1 && f->m >= 1 && f->size == 0);
    PROVE(kind == 2 ? f->m * f->k <= f->bmsize : f->m * f->k <= 8 * f->bmsize);
    for (uint64_t i = 0; i < f->bmsize; i++) PROVE(f->bitmap[i] == 0);
    for (int i = 0; i < NV; i++) vfh_put_[i] = 0;
    return b;
}
static void vfh_drop(Bloom *st, Bloom *b) { if (st) Bloom_fini(b); else Bloom_delete(b); PROVE(vf_live == 0); }

/* values in one after another, each found from then on */
static void
vfh_scene(int kind, uint64_t n, double e, int z, int embed)
{
    Bloom st;
    vf_heap_reset();
    vfh_salt_ = hash_val(V[z % NV], 0) ^ Z[z];          /* the hash of one of them is this */
    Bloom *b = vfh_mk(embed ? &st : 0, kind, n, e);
    PROVE(!Bloom_find(b, V[0]) && !Bloom_find(b, V[3]));
    for (int i = 0; i < NV; i++) {
        Bloom_probe(b, V[i]);
        vfh_put_[i]++;
        if (i == 4) Bloom_probe(b, V[2]);
        vfh_found(b);
    }
    if (kind != 2) {
        Bloom_remove(b, V[1]);      /* changes nothing */
        vfh_found(b);
    }
    VF_reach();
    vfh_drop(embed ? &st : 0, b);
    VF_END;
}

/* counting: takes out what was put in, as often as it was */
static void
vfh_scene_count(uint64_t n, double e, int z, int a, int c)
{
    vf_heap_reset();
    vfh_salt_ = hash_val(V[a], 0) ^ Z[z];
    Bloom *b = vfh_mk(0, 2, n, e);
    bloom *f = b->filter;
    for (int i = 0; i < NV / 2; i++) { Bloom_probe(b, V[i]); vfh_put_[i]++; }
    for (int i = 0; i < c; i++) { Bloom_probe(b, V[a]); vfh_put_[a]++; }
    PROVE(f->size == NV / 2 + c);
    vfh_found(b);
    /* something that is not there */
    for (int i = NV / 2; i < NV; i++)
        if (!Bloom_find(b, V[i])) {
            uint64_t s = f->size;
            PROVE(!Bloom_remove(b, V[i]));
            PROVE(f->size == s);
        }
    vfh_found(b);
    for (int i = 0; i < 2; i++) {
        int k = (a + i) % (NV / 2);
        while (vfh_put_[k] > i) { PROVE(Bloom_remove(b, V[k])); vfh_put_[k]--; }
        vfh_found(b);
    }
    VF_reach();
    if (c < 200) {
        /* all out: nothing left */
        for (int k = 0; k < NV; k++) while (vfh_put_[k]) { PROVE(Bloom_remove(b, V[k])); vfh_put_[k]--; }
        for (uint64_t i = 0; i < f->bmsize; i++) PROVE(f->bitmap[i] == 0);
        PROVE(f->size == 0);
    }
    vfh_drop(0, b);
    VF_END;
}

/* a scalable filter through many growths */
static void
vfh_scene_grow(uint64_t n, double e, int steps)
{
    vf_heap_reset();
    vfh_salt_ = 0x5555;
    Bloom *b = vfh_mk(0, 1, n, e);
    scalable_bloom *sb = b->filter;
    for (int i = 0; i < steps; i++) {
        uint32_t l0 = sb->len;
        Bloom_probe(b, V[i]);
        vfh_put_[i]++;
        PROVE(sb->len <= sb->cap && sb->len >= l0 && sb->len <= l0 + 1);
        bloom *f = &sb->bfa[sb->len - 1];
        PROVE(f->m * f->k <= 8 * f->bmsize && f->m >= 1 && f->k >= 1);
        if (sb->len > l0) {
            PROVE(f->size == 1);
            bloom *g = &sb->bfa[l0 - 1];
            PROVE(f->e < g->e && f->m * f->k > g->m * g->k);
        }
        vfh_found(b);
        /* as if it had become full */
        f->size = 2 * f->m;
    }
    PROVE((int)sb->len == steps);
    VF_reach();
    vfh_drop(0, b);
    VF_END;
}

/* any value, any salt: inside the bitmap */
static void
vfh_scene_any(int kind, uint64_t n, double e)
{
    vf_heap_reset();
    vfh_salt_ = Frama_C_unsigned_long_interval(0, -1UL);
    Bloom *b = vfh_mk(0, kind, n, e);
    uint64_t v = Frama_C_unsigned_long_interval(0, -1UL);
    Bloom_probe(b, v);
    Bloom_find(b, v);
    VF_reach();
    vfh_drop(0, b);
    VF_END;
}

/* equality sees every part */
static void
vfh_scene_eq(int kind)
{
    vf_heap_reset();
    vfh_salt_ = 1;
    Bloom *a = vfh_mk(0, kind, 3, 0.1), *b = vfh_mk(0, kind, 3, 0.1), *c = vfh_mk(0, kind, 9, 0.1), *d = vfh_mk(0, kind == 2 ? 0 : 2, 3, 0.1);
    PROVE(Bloom_eq(a, b) && Bloom_eq(b, a) && !Bloom_eq(a, c) && !Bloom_eq(a, d));
    Bloom_probe(a, 5);
    PROVE(!Bloom_eq(a, b));
    Bloom_probe(b, 5);
    PROVE(Bloom_eq(a, b));
    Bloom_probe(a, 6); Bloom_probe(b, 7);
    PROVE(!Bloom_eq(a, b));
    VF_reach();
    Bloom_delete(a); Bloom_delete(b); Bloom_delete(c); Bloom_delete(d);
    PROVE(vf_live == 0);
    VF_END;
}

int main(void)
{
    int k_ = 0;
    static const double es[] = { 0.3, 0.1, 0.01 };
    static const uint64_t ns[] = { 1, 2, 5, 10, 33 };
#define SKIP if (k_++ % VF_NSHARD != VF_SHARD) continue
    for (int kind = 0; kind < 3; kind++) {
        for (int j = 0; j < NELEM(es); j++)
            for (int i = 0; i < NELEM(ns); i += STEP) {
                for (int z = 0; z < NELEM(Z); z++) { SKIP; vfh_scene(kind, ns[i], es[j], z, z & 1); }
                SKIP;
                vfh_scene_any(kind, ns[i], es[j]);
            }
        SKIP;
        vfh_scene_eq(kind);
    }
    for (int z = 0; z < NELEM(Z); z++)
        for (int a = 0; a < NV / 2; a += 2) {
            SKIP;
            vfh_scene_count(5, 0.1, z, a, a);
            if (a == 2) vfh_scene_count(1, 0.3, z, a, 254 + z % 3);
        }
    for (int i = 0; i < NELEM(ns); i++)
        for (int j = 0; j < 2; j++) { SKIP; vfh_scene_grow(ns[i], es[j], i < 1 ? 10 : i < 2 ? 8 : 4); }
    return 0;
}
