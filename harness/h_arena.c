/* arena: every block is aligned, inside one live chunk, apart from every other; failure and deletion leak nothing. */
#include "vf.h"
#include "vf_abs.h"
#include "utils/memmgr.h"
#include "arena.c"

#define ALN 8
#define MAXB 8
static struct { uintptr_t p; size_t n; } vfh_blk[MAXB];
static int vfh_nb;

static void
vfh_note(void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    PROVE(a % ALN == 0);
    PROVE(in_chunk(a, n));
    for (int i = 0; i < vfh_nb; i++) PROVE(n == 0 || vfh_blk[i].n == 0 || a + n <= vfh_blk[i].p || vfh_blk[i].p + vfh_blk[i].n <= a);
    vfh_blk[vfh_nb].p = a; vfh_blk[vfh_nb].n = n;
    /* the owner may fill all of it */
    if (n) ((unsigned char *)p)[0] = ((unsigned char *)p)[n / 2] = ((unsigned char *)p)[n - 1] = 0x40 + vfh_nb;
    vfh_nb++;
}
static void
vfh_intact(void)
{
    for (int k = 0; k < vfh_nb; k++) {
        size_t n = vfh_blk[k].n;
        if (n == 0) continue;
        const unsigned char *p = (const unsigned char *)vfh_blk[k].p;
        PROVE(p[0] == 0x40 + k && p[n / 2] == 0x40 + k && p[n - 1] == 0x40 + k);
    }
}

static const size_t vfh_sizes[] = { 0, 1, 7, 8, 9, 24, 33, 63, 64, 65 };

/* OPS requests given by the digits of code; lower-layer request no. 'fail' fails */
static void
vfh_scene(size_t chunk, int code, int nops, int fail, int viamgr)
{
    arena_t a = 0;
    memmgr m;
    abs_reset(); vfh_nb = 0;
    abs_fail_at = fail;
    int r = arena_new(&a, chunk);
    if (fail == 1) { VF_reach(); PROVE(r == -ENOMEM && abs_live == 0); VF_END; }
    PROVE(r == 0 && a);
    if (viamgr) { PROVE(arena_memmgr(&m, a) == &m && memmgr_valid_p(&m) && m.context == a); memmgr_free(&m, a); }
    for (int i = 0; i < nops; i++) {
        size_t n = vfh_sizes[code % NELEM(vfh_sizes)];
        code /= NELEM(vfh_sizes);
        abs_failed = 0;
        void *p = arena_alloc(a, n);
        if (p) { PROVE(!abs_failed); vfh_note(p, n); }
        else   { VF_reach(); PROVE(abs_failed); }
    }
    vfh_intact();
    VF_reach();
    arena_delete(a);
    PROVE(abs_live == 0);
    abs_check();
    VF_END;
}

/* requests whose size arithmetic could wrap */
static void
vfh_scene_huge(size_t chunk, size_t n)
{
    arena_t a = 0;
    abs_reset(); vfh_nb = 0;
    int r = arena_new(&a, chunk);
    if (r != 0) { VF_reach(); PROVE(r < 0 && abs_live == 0); VF_END; }
    void *p = arena_alloc(a, 8);
    if (p) vfh_note(p, 8);
    void *q = arena_alloc(a, n);
    VF_reach();
    if (q) vfh_note(q, n);
    vfh_intact();
    arena_delete(a);
    PROVE(abs_live == 0);
    VF_END;
}

static void
vfh_scene_strdup(int n, int fail)
{
    char s[64], *t;
    arena_t a = 0;
    vf_anystr(s, n, fail == 0);
    abs_reset(); vfh_nb = 0;
    if (arena_new(&a, 16) != 0) VF_fail();
    abs_fail_at = fail;
    t = arena_strdup(a, s);
    if (t) {
        VF_reach();
        PROVE(in_chunk((uintptr_t)t, n + 1) && t[n] == 0);
        for (int i = 0; i < n; i++) PROVE(t[i] != 0);
        for (int i = 0; i < n; i++) s[i] = i + 1;
        char *u = arena_strdup(a, s);
        if (u) for (int i = 0; i <= n; i++) PROVE(u[i] == s[i]);
    } else { VF_reach(); PROVE(fail); }
    arena_delete(a);
    PROVE(abs_live == 0);
    VF_END;
}

#include "memmgr.c"
static int vfh_err_exit;
void error(int do_exit, int e, const char *fmt, ...) { PROVE(do_exit && e == ENOMEM); vfh_err_exit = 1; }
static int vfh_fr;
static void *vfh_my_alloc(void *ctx, size_t n) { PROVE(ctx == &vfh_fr && n == 5); return &vfh_fr; }
static void vfh_my_free(void *ctx, void *p)    { PROVE(ctx == &vfh_fr && p == &vfh_fr); vfh_fr++; }

static void
vfh_scene_mgr(int which, int fail)
{
    memmgr m;
    abs_reset();
    abs_fail_at = fail; vfh_err_exit = 0; vfh_fr = 0;
    if (which == 0) {
        PROVE(memmgr_init(&m, vfh_my_alloc, vfh_my_free, &vfh_fr) == &m && memmgr_init(0, vfh_my_alloc, vfh_my_free, 0) == 0);
        PROVE(memmgr_alloc(&m, 5) == &vfh_fr);
        memmgr_free(&m, &vfh_fr);
        PROVE(vfh_fr == 1);
    } else {
        PROVE((which == 1 ? memmgr_init_default(&m) : memmgr_init_xmalloc(&m)) == &m);
        void *p = memmgr_alloc(&m, 24);
        PROVE(p ? in_chunk((uintptr_t)p, 24) : fail && (which == 1 || vfh_err_exit));
        memmgr_free(&m, p);
        PROVE(abs_live == 0);
        memmgr_free(&m, 0);
    }
    VF_reach();
    VF_END;
}

int main(void)
{
    static const size_t chunks[] = { 8, 1, 64, 0, 100 };
    static const size_t huge[] = { (size_t)-1, (size_t)-7, (size_t)-8, (size_t)-9, (size_t)-1 / 2, (size_t)-1 / 2 + 1,
        (size_t)-1 / 16 + 1, (size_t)-1 / 16, (size_t)1 << 60, ((size_t)1 << 60) - 8, ((size_t)1 << 60) + 1, (size_t)1 << 61, (size_t)1 << 63, 70000, (size_t)-100, (size_t)-40, (size_t)-32 };
    for (int code = VF_SHARD; code < vf_pow(NELEM(vfh_sizes), OPS); code += VF_NSHARD * STEP) {
        vfh_scene(chunks[(code + VF_SHARD) % 5], code, OPS, 0, code % 3 == 0);
        if (code % 7 == 0) for (int f = 1; f <= OPS + 1; f++) vfh_scene(chunks[code % 2], code, OPS, f, 0);
    }
    for (int i = 0; i < NELEM(huge); i++) { for (int k = 0; k < 5; k++) vfh_scene_huge(chunks[k], huge[i]); vfh_scene_huge(huge[i], 8); vfh_scene_huge(huge[i], huge[i]); }
    for (int n = 0; n <= 33; n++) { vfh_scene_strdup(n, 0); vfh_scene_strdup(n, 2); }
    for (int w = 0; w < 3; w++) for (int f = 0; f < 2; f++) vfh_scene_mgr(w, f);
    arena_t a;
    PROVE(arena_new(0, 8) == -EINVAL);
    PROVE(arena_alloc(0, 8) == 0);
    return 0;
}
