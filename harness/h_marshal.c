/* filters written to a file and read back: crash safety, errors, round trip, bad files */
#include "vf.h"
#define HEAP_SIZE 2048
#define HEAP_SLOTS 24
#include "vf_heap.h"
#include "vf_printf.h"
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/random.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "vf_fs.h"
#include <sodium.h>
static uint64_t vfh_salt_;
static int vf_getentropy(void *p, size_t n) { PROVE(n == 8); *(uint64_t *)p = vfh_salt_; vfh_salt_ = vfh_salt_ * 0x9E3779B97F4A7C15UL + 12345; return 0; }
#define getentropy vf_getentropy
/* a double's bytes: its number in a table (E01 decides the encoding itself) */
#include "fast/encdec.h"
static double vfh_dbl_[8]; static int ndbl_;
static uint8_t *vf_encd(uint8_t *p, double d)
{
    int i;
    for (i = 0; i < ndbl_; i++) if (vfh_dbl_[i] == d) break;
    if (i == ndbl_) { if (ndbl_ == 8) { VF_fail(); return p + 8; } vfh_dbl_[ndbl_++] = d; }
    return enc_LE_u64(p, i + 1);
}
static double vf_decd(uint8_t *p) { uint64_t i = dec_LE_u64(p); return i >= 1 && i <= ndbl_ ? vfh_dbl_[i - 1] : 0.25; }
#define enc_LE_float64 vf_encd
#define dec_LE_float64 vf_decd

#ifdef XOR
#include "src/hashtable/xorfilter.c"
#include "src/hashtable/xorfilter_marshal.c"
typedef Xorfilter F;
static const uint64_t V[] = { 0, 1, ~0UL, 0x123456789abcdef0UL, 77 };
static F *vfh_mkf(int kind) { vfh_salt_ = 0x1234; return kind & 1 ? Xorfilter_new16((uint64_t *)V, 5) : Xorfilter_new8((uint64_t *)V, 5); }
static int vfh_has(F *f, uint64_t v) { return Xorfilter_contains(f, v); }
static int vfh_same(F *a, F *b) { return a->seed == b->seed && a->size == b->size && a->n == b->n && !a->is_16 == !b->is_16 && memcmp(a->ptr, b->ptr, xorfilter_size(a)) == 0; }
static int vfh_put_file(F *f) { return Xorfilter_marshal(f, VF_FINAL); }
static int vfh_get_file(F **f, int m) { return Xorfilter_unmarshal(f, VF_FINAL, m ? XORFILTER_MMAP : 0); }
static void vfh_del(F *f) { Xorfilter_delete(f); }
#define NKIND 2
static void vfh_rehash(void)
{
    crypto_hash_sha256_state h;
    uint8_t b[8];
    enc_LE_u64(b, vf_fin.size);
    crypto_hash_sha256_init(&h);
    crypto_hash_sha256_update(&h, b, 8);
    crypto_hash_sha256_update(&h, (uint8_t *)vf_fin.data, vf_fin.size - 32);
    crypto_hash_sha256_final(&h, (uint8_t *)vf_fin.data + vf_fin.size - 32);
}
#else
#include "src/hashtable/bloom.c"
#undef inline
#define wrhdr_ok 1
#include "src/hashtable/bloom_marshal.c"
typedef Bloom F;
static const uint64_t V[] = { 0, 1, ~0UL, 0x123456789abcdef0UL, 77 };
static F *vfh_mkf(int kind)
{
    vfh_salt_ = 0x1234;
    F *f = kind < 2 ? Standard_bloom_new(4, 0.1, kind & 1) : Counting_bloom_new(4, 0.1);
    for (int i = 0; i < 5; i++) Bloom_probe(f, V[i]);
    if (kind == 1) PROVE(((scalable_bloom *)f->filter)->len > 1);
    return f;
}
static int vfh_has(F *f, uint64_t v) { return Bloom_find(f, v); }
static int vfh_same(F *a, F *b) { return a->typ == b->typ && a->n == b->n && a->e == b->e && Bloom_eq(a, b); }
static int vfh_put_file(F *f) { return Bloom_marshal(f, VF_FINAL); }
static int vfh_get_file(F **f, int m) { return Bloom_unmarshal(f, VF_FINAL, m ? BLOOM_BITMAP_MMAP : 0); }
static void vfh_del(F *f) { Bloom_delete(f); }
#define NKIND 3
static void vfh_rehash(void)
{
    checksummer c;
    c = Checksums[vf_fin.data[7] == 1];
    cksum(&c, (uint8_t *)vf_fin.data + vf_fin.size - 32, (uint8_t *)vf_fin.data, vf_fin.size - 32);
}
#endif

/* writing, with call number 'fail' failing; then reading back */
static void
vfh_scene(int kind, int old, int fail, int mm, int rfail)
{
    vf_heap_reset(); ndbl_ = 0;
    F *f = vfh_mkf(kind);
    int live = vf_live;
    vf_fs_reset(old, fail);
    int r = vfh_put_file(f);
    PROVE(vf_fd_live == 0 && vf_map_live == 0 && !vf_tmp.exists && vf_live == live);
    if (fail >= 0 && vf_sys_failed) {
        PROVE(r == -vf_errno);
        PROVE(!vf_renamed);
        vf_fs_old(old);
        vfh_del(f);
        PROVE(vf_live == 0);
        VF_END;
    }
    PROVE(r == 0 && vf_renamed == 1);
    F *g = 0;
    vf_sys = 0; vf_sys_fail_at = rfail; vf_sys_failed = 0;
    r = vfh_get_file(&g, mm);
    PROVE(vf_fd_live == 0);
    if (vf_sys_failed) {
        PROVE(r == -vf_errno && g == 0 && vf_live == live && vf_map_live == 0);
        vfh_del(f);
        PROVE(vf_live == 0);
        VF_END;
    }
    PROVE(r == 0 && g);
    PROVE(vf_map_live == (mm ? 1 : 0));
    PROVE(vfh_same(f, g));
    for (int i = 0; i < NELEM(V); i++) PROVE(vfh_has(g, V[i]));
    vfh_del(f);
    VF_reach();
    vfh_del(g);
    PROVE(vf_live == 0 && vf_map_live == 0 && vf_fd_live == 0);
    VF_END;
}

static void
vfh_refused(int err, int mm)
{
    int live = vf_live;
    F *g = 0;
    int r = vfh_get_file(&g, mm);
    PROVE(r < 0);
    if (err) PROVE(r == -err);
    PROVE(g == 0 && vf_live == live && vf_map_live == 0 && vf_fd_live == 0);
}

/* one byte changed; the file cut short */
static void
vfh_scene_corrupt(int kind, int at)
{
    vf_heap_reset(); ndbl_ = 0;
    F *f = vfh_mkf(kind);
    vf_fs_reset(0, -1);
    PROVE(vfh_put_file(f) == 0);
    int n = vf_fin.size;
    if (at < n) {
        char c = vf_fin.data[at];
        vf_fin.data[at] = c ^ (1 << (at & 7));
        vfh_refused(0, at & 1);
        vf_fin.data[at] = c;
        VF_reach();
    }
    if (at < n) {
        vf_fin.size = at;
        vfh_refused(0, at & 1);
    }
    vfh_del(f);
    PROVE(vf_live == 0);
    VF_END;
}

/* valid checksums over anything in the header: refused, or a filter whose use stays within memory */
static void
vfh_scene_crafted(int kind, int what, int val, int mm)
{
    vf_heap_reset(); ndbl_ = 0;
    F *f = vfh_mkf(kind);
    vf_fs_reset(0, -1);
    PROVE(vfh_put_file(f) == 0);
    vfh_del(f);
    uint64_t n = vf_fin.size;
    static const uint64_t D[] = { 0, 1, 2, 7, 8, 39, 63, 64, 65, 128, 192, 255, 256, 511, 512, 513, 1024, 0x10000, 0x55555555, 0x55555556, 0x80000000, 0xffffffffUL, 0x7fffffffffffffffUL, 0xffffffffffffffd8UL, ~0UL - 32, ~0UL };
    uint64_t v = val < NELEM(D) ? D[val] : val - NELEM(D) < 3 ? n - 32 - (val - NELEM(D)) : val - NELEM(D) < 5 ? n - 96 - 64 * (val - NELEM(D) - 3) : n;
    uint8_t *p = (uint8_t *)vf_fin.data;
#ifdef XOR
    switch (what) {
    case 0: p[4] = v; break;
    case 1: p[5] = v; break;
    case 2: enc_LE_u32(p + 16, v); break;       /* size */
    case 3: enc_LE_u32(p + 20, v); break;       /* elements */
    case 4: enc_LE_u64(p + 8, v); break;
    case 5: v = v & 0xffff; enc_LE_u32(p + 20, v); enc_LE_u32(p + 16, xorfilter_calc_size(v)); break;
    case 6: enc_LE_u32(p + 16, 3 * (uint32_t)v); enc_LE_u32(p + 20, 2); p[5] = 1; break;
    default: p[0] = v; break;
    }
#else
    uint64_t h = dec_LE_u64(p + 80);
    switch (what) {
    case 0: p[4] = v; break;
    case 1: p[5] = v; break;
    case 2: p[6] = v; break;
    case 3: p[7] = v; break;
    case 4: enc_LE_u64(p + 24, v); break;       /* size of the data */
    case 5: enc_LE_u32(p + 64, v); break;       /* number of filters */
    case 6: enc_LE_u64(p + 80, v); break;       /* where the filter is */
    case 7: enc_LE_u64(p + h, v); break;        /* m */
    case 8: enc_LE_u64(p + h + 8, v); break;    /* k */
    case 9: enc_LE_u64(p + h + 32, v); break;   /* bytes of bitmap */
    case 10: enc_LE_u64(p + h, v); enc_LE_u64(p + h + 8, ~0UL / (v ? v : 1) + 1); break;
    case 11: enc_LE_u64(p + h + 16, v); break;  /* salt */
    default: p[0] = v; break;
    }
#endif
    vfh_rehash();
    F *g = 0;
    int r = vfh_get_file(&g, mm);
    PROVE(vf_fd_live == 0);
    if (r < 0) PROVE(g == 0 && vf_live == 0 && vf_map_live == 0);
    else {
        PROVE(r == 0 && g != 0);
        VF_reach();
        vfh_has(g, 0);
        vfh_has(g, Frama_C_unsigned_long_interval(0, ~0UL));
#ifndef XOR
        /* a filter that takes ages to use is still a filter */
        if (!mm) Bloom_probe(g, Frama_C_unsigned_long_interval(0, ~0UL));
#endif
        vfh_del(g);
        PROVE(vf_live == 0 && vf_map_live == 0);
    }
    VF_END;
}

int main(void)
{
    int k_ = 0;
#define SKIP if (k_++ % VF_NSHARD != VF_SHARD) continue
#if MODE == 1
    for (int kind = 0; kind < NKIND; kind++)
        for (int old = 0; old < 40; old += 33)
            for (int fail = -1; fail < 7; fail++) { SKIP; vfh_scene(kind, old, fail, fail & 1, -1); }
    for (int kind = 0; kind < NKIND; kind++)
        for (int mm = 0; mm < 2; mm++)
            for (int rf = -1; rf < 4; rf++) { SKIP; vfh_scene(kind, 0, -1, mm, rf); }
#else
    for (int kind = 0; kind < NKIND; kind++)
        for (int at = 0; at < FSZ; at += at > 150 ? 41 : CSTEP) { SKIP; vfh_scene_corrupt(kind, at); }
    for (int kind = 0; kind < NKIND; kind++)
        for (int what = 0; what < 13; what++)
            for (int val = 0; val < 32; val++) { SKIP; vfh_scene_crafted(kind, what, val, (val + what) & 1); }
#endif
    return 0;
}
