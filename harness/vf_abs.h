/*
 * vf_abs.h - a heap at absolute addresses (-absolute-valid-range
 * 0x10000-0x6ffff), so that alignment arithmetic on pointers is exact.
 * Every byte of the range can be read and written, so bounds are an
 * obligation of the harness: guard bytes around each chunk, and explicit
 * in_chunk() tests.
 */
#ifndef VF_ABS_H
#define VF_ABS_H
#define ABS_LO      0x10000UL
#define ABS_HI      0x70000UL
#define ABS_GUARD   16
#ifndef ABS_MAX
#define ABS_MAX     12
#endif
static uintptr_t abs_next = ABS_LO;
static struct { uintptr_t p; size_t n; int live; } abs_tab[ABS_MAX];
static int abs_n, abs_live, abs_calls, abs_fail_at, abs_failed;

static void
abs_reset(void)
{
    abs_next = ABS_LO; abs_n = abs_live = abs_calls = abs_fail_at = abs_failed = 0;
}
static void
abs_guard(uintptr_t p)
{
    *(uint64_t *)p = 0xE5E5E5E5E5E5E5E5UL;
}
static void *
abs_alloc(size_t n)
{
    if (++abs_calls == abs_fail_at || n > ABS_HI - abs_next - 3 * ABS_GUARD) { abs_failed = 1; errno = ENOMEM; return 0; }
    PROVE(abs_n < ABS_MAX);
    uintptr_t p = abs_next + ABS_GUARD;
    abs_guard(p - 8);
    abs_guard(p + n);
    abs_next = (p + n + ABS_GUARD + 15) & ~15UL;
    abs_tab[abs_n].p = p; abs_tab[abs_n].n = n; abs_tab[abs_n].live = 1;
    abs_n++; abs_live++;
    return (void *)p;
}
static void
abs_free(void *p)
{
    if (!p) return;
    for (int i = 0; i < abs_n; i++)
        if (abs_tab[i].p == (uintptr_t)p && abs_tab[i].live) { abs_tab[i].live = 0; abs_live--; return; }
    VF_fail();      /* not allocated, or freed twice */
}
static void
abs_check(void)
{
    for (int k = 0; k < abs_n; k++)
        PROVE(((uint64_t *)abs_tab[k].p)[-1] == 0xE5E5E5E5E5E5E5E5UL && *(uint64_t *)(abs_tab[k].p + abs_tab[k].n) == 0xE5E5E5E5E5E5E5E5UL);
}
/* [p,p+n) lies inside one live chunk */
static int
in_chunk(uintptr_t p, size_t n)
{
    for (int i = 0; i < abs_n; i++)
        if (abs_tab[i].live && p >= abs_tab[i].p && n <= abs_tab[i].n && p - abs_tab[i].p <= abs_tab[i].n - n) return 1;
    return 0;
}
static void *abs_calloc(size_t a, size_t b)
{
    if (b && a > (size_t)-1 / b) return 0;
    void *p = abs_alloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
#define malloc abs_alloc
#define calloc abs_calloc
#define free   abs_free
#endif
