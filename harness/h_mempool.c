/* mempool: fixed-size blocks, aligned, inside the pool, never handed out twice, no more than max; every failure clean. */
#include "vf.h"
#define ABS_MAX 8
#define MEMPOOL_MIN_ALLOC_UNITS 5
#include "vf_abs.h"
#undef  assert
#include <assert.h>
#include "mempool.c"

#define MAXB 16
static uintptr_t vfh_blk[MAXB];     /* outstanding blocks, oldest first */
static int vfh_nb;
static uintptr_t vfh_pool_lo, vfh_pool_hi;

static void
vfh_take(mempool *a, void *p, unsigned want)
{
    uintptr_t q = (uintptr_t)p;
    unsigned bs = mempool_block_size(a);
    PROVE(bs >= want && bs >= sizeof (mru_node));
    PROVE(q % 8 == 0);
    PROVE(vfh_pool_hi ? q >= vfh_pool_lo && q + bs <= vfh_pool_hi : in_chunk(q, bs));
    for (int i = 0; i < vfh_nb; i++) PROVE(q + bs <= vfh_blk[i] || vfh_blk[i] + bs <= q);
    PROVE(vfh_nb < MAXB);
    ((uint64_t *)p)[0] = q; ((uint64_t *)p)[1] = ~q;
    ((unsigned char *)p)[bs - 1] = (q >> 4) & 0xff;
    vfh_blk[vfh_nb++] = q;
}
static uintptr_t
vfh_drop(mempool *a, int i)
{
    uintptr_t q = vfh_blk[i];
    unsigned bs = mempool_block_size(a);
    if (bs > 16) PROVE(((uint64_t *)q)[0] == q && ((uint64_t *)q)[1] == ~q);
    else         PROVE(((uint64_t *)q)[0] == q);
    PROVE(((unsigned char *)q)[bs - 1] == ((q >> 4) & 0xff));
    for (; i + 1 < vfh_nb; i++) vfh_blk[i] = vfh_blk[i + 1];
    vfh_nb--;
    return q;
}

static int vfh_ctx;
static void *vfh_mgr_alloc(void *c, size_t n) { PROVE(c == &vfh_ctx); return abs_alloc(n); }
static void vfh_mgr_free(void *c, void *p)    { PROVE(c == &vfh_ctx); abs_free(p); }
static const memmgr vfh_mgr = { vfh_mgr_alloc, vfh_mgr_free, &vfh_ctx };

/*
 * how: 0 mempool_new, 1 mempool_init; bit 2: custom allocator, bit 3: used through the memmgr.
 * ops, base 3: 0 allocate, 1 free the oldest, 2 free the newest
 */
static void
vfh_run(mempool *a, unsigned want, int code, int nops, unsigned max, int stacked)
{
    memmgr m;
    if (stacked) {
        PROVE(mempool_make_memmgr(&m, a) == &m);
        PROVE(memmgr_alloc(&m, mempool_block_size(a) + 1) == 0);
    }
    for (int i = 0; i < nops; i++) {
        int op = code % 3;
        code /= 3;
        if (op && vfh_nb > 0) {
            uintptr_t q = vfh_drop(a, op == 1 ? 0 : vfh_nb - 1);
            if (stacked) memmgr_free(&m, (void *)q); else mempool_free(a, (void *)q);
        } else {
            abs_failed = 0;
            void *p = stacked ? memmgr_alloc(&m, want) : mempool_alloc(a);
            if (p) { PROVE(!max || vfh_nb < max); vfh_take(a, p, want); }
            else   PROVE(max ? vfh_nb == max : abs_failed);
        }
    }
}

static void
vfh_scene(int how, unsigned bs, unsigned max, unsigned units, int code, int nops, int fail)
{
    mempool st, *a = (mempool *)77;
    abs_reset(); vfh_nb = 0; vfh_pool_lo = vfh_pool_hi = 0;
    abs_fail_at = fail;
    const memmgr *tr = how & 4 ? &vfh_mgr : 0;
    int r;
    if (how & 1) { a = &st; r = mempool_init(a, tr, bs, max, units); }
    else           r = mempool_new(&a, tr, bs, max, units);
    if (r != 0) {
        VF_reach();
        PROVE(r == -ENOMEM && abs_failed && abs_live == 0);
        PROVE((how & 1) || a == (mempool *)77);
        VF_END;
    }
    PROVE(mempool_total_blocks(a) == max);
    PROVE(mempool_block_size(a) >= bs);
    vfh_run(a, bs, code, nops, max, how & 8);
    while (vfh_nb > 0) mempool_free(a, (void *)vfh_drop(a, 0));
    VF_reach();
    abs_check();
    if (how & 1) mempool_fini(a); else mempool_delete(a);
    PROVE(abs_live == 0);
    VF_END;
}

/* work out of caller's memory: off = its misalignment, sz its size */
static void
vfh_scene_mem(int isnew, unsigned bs, int off, unsigned sz, int code, int nops)
{
    mempool st, *a = (mempool *)77;
    abs_reset(); vfh_nb = 0;
    vfh_pool_lo = ABS_LO + 64 + off; vfh_pool_hi = vfh_pool_lo + sz;
    for (int i = 1; i <= 16; i++) ((unsigned char *)vfh_pool_lo)[-i] = ((unsigned char *)vfh_pool_hi)[i - 1] = 0xE5;
    int r;
    if (isnew) r = mempool_new_from_mem(&a, bs, (void *)vfh_pool_lo, sz);
    else       r = mempool_init_from_mem(a = &st, bs, (void *)vfh_pool_lo, sz);
    if (r != 0) {
        VF_reach();
        PROVE(r == -ENOMEM || r == -EINVAL);
        PROVE(sz < bs + 8 + 7 + 16 + 8 + 24 + 16 + (isnew ? sizeof (mempool) : 0));
        PROVE(!isnew || a == (mempool *)77);
    } else {
        unsigned max = mempool_total_blocks(a);
        PROVE(max >= 1 && mempool_block_size(a) >= bs);
        vfh_run(a, bs, code, nops, max, 0);
        /* all of max blocks can be had */
        while (vfh_nb < max && vfh_nb < MAXB) { void *p = mempool_alloc(a); PROVE(p); vfh_take(a, p, bs); }
        if (max < MAXB) PROVE(mempool_alloc(a) == 0);
        for (int i = 0; i < vfh_nb; i++) PROVE(((uint64_t *)vfh_blk[i])[0] == vfh_blk[i]);
        VF_reach();
        if (isnew) mempool_delete(a); else mempool_fini(a);
        PROVE(abs_calls == 0);
    }
    for (int i = 1; i <= 16; i++) PROVE(((unsigned char *)vfh_pool_lo)[-i] == 0xE5 && ((unsigned char *)vfh_pool_hi)[i - 1] == 0xE5);
    VF_END;
}

static void
vfh_scene_edge(unsigned bs, unsigned max, unsigned units)
{
    mempool *a = 0;
    abs_reset(); vfh_nb = 0; vfh_pool_lo = vfh_pool_hi = 0;
    int r = mempool_new(&a, 0, bs, max, units);
    VF_reach();
    PROVE(r < 0 && abs_live == 0);
    VF_END;
}

int main(void)
{
    static const unsigned bss[] = { 1, 16, 17, 24, 40 };
    static const struct { unsigned max, units; } lim[] = { { 0, 1 }, { 0, 2 }, { 1, 0 }, { 2, 0 }, { 3, 7 }, { 0, 0 } };
    for (int code = VF_SHARD; code < vf_pow(3, OPS); code += VF_NSHARD) {
        int k = code / VF_NSHARD;
        for (int l = 0; l < NELEM(lim); l++) {
            static const char hows[] = { 0, 1, 4, 5, 8, 0, 13 };
            vfh_scene(hows[(k + l) % 7], bss[(k * 3 + l) % 5], lim[l].max, lim[l].units, code, OPS, 0);
            if ((k + l) % 4 == 0) vfh_scene(hows[(k + l) % 7], bss[k % 5], lim[l].max, lim[l].units, code, OPS, 1 + (k + l) / 4 % 4);
        }
        int off = k % 8;
        vfh_scene_mem(k & 1, bss[k % 5], off, 24 + bss[k % 5] * (1 + k % 3) + (k % 40) + (k & 1 ? sizeof (mempool) : 0), code, OPS);
    }
    for (unsigned sz = VF_SHARD; sz < 240; sz += VF_NSHARD) { vfh_scene_mem(0, 16, sz % 8, sz, 0, 2); vfh_scene_mem(1, 24, sz / 2 % 8, sz, 0, 2); if (sz < 48) vfh_scene_mem(0, 1, 7 - sz % 8, sz, 0, 2); }
    for (int off = 1; off < 8; off++) for (int sz = 1; sz < 9; sz++) { vfh_scene_mem(0, 8, off, sz, 0, 2); vfh_scene_mem(1, 8, off, sz, 0, 2); }
    vfh_scene_edge(0xffffffffU, 0, 2); vfh_scene_edge(0xfffffff9U, 1, 0); vfh_scene_edge(0xfffffff8U, 0xffffffffU, 0); vfh_scene_edge(64, 0xffffffffU, 0); vfh_scene_edge(0xfffffffU, 0, 0);
    vfh_scene_edge(0x80000000U, 2, 0);
    mempool st, *a;
    PROVE(mempool_init(0, 0, 8, 0, 0) == -EINVAL && mempool_new(0, 0, 8, 0, 0) == -EINVAL);
    PROVE(mempool_init_from_mem(&st, 0xfffffff9U, (void *)ABS_LO, 4096) < 0 && mempool_init_from_mem(&st, 0xfffffff0U, (void *)ABS_LO, 4096) < 0);
    mempool_fini(0); mempool_delete(0);
    return 0;
}
