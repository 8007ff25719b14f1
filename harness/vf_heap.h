/*
 * vf_heap.h - a heap the analyser can follow cheaply.
 *
 * An allocation of n bytes is the last n bytes of a fixed block: one byte too
 * far is out of bounds. Contents start as "any bytes". A pointer
 * given to free/realloc must be a live allocation. vf_fail_at makes the k-th
 * allocation fail; vf_live counts what has not been freed.
 */
#ifndef VF_HEAP_H
#define VF_HEAP_H 1

#ifndef HEAP_SLOTS
#define HEAP_SLOTS  4
#endif
#ifndef HEAP_SIZE
#define HEAP_SIZE   512
#endif

/* separate objects: an overrun of one block does not land in another */
static char vf_m0[HEAP_SIZE], vf_m1[HEAP_SIZE], vf_m2[HEAP_SIZE], vf_m3[HEAP_SIZE], vf_m4[HEAP_SIZE], vf_m5[HEAP_SIZE], vf_m6[HEAP_SIZE], vf_m7[HEAP_SIZE], vf_m8[HEAP_SIZE], vf_m9[HEAP_SIZE], vf_m10[HEAP_SIZE], vf_m11[HEAP_SIZE], vf_m12[HEAP_SIZE], vf_m13[HEAP_SIZE], vf_m14[HEAP_SIZE], vf_m15[HEAP_SIZE], vf_m16[HEAP_SIZE], vf_m17[HEAP_SIZE], vf_m18[HEAP_SIZE], vf_m19[HEAP_SIZE], vf_m20[HEAP_SIZE], vf_m21[HEAP_SIZE], vf_m22[HEAP_SIZE], vf_m23[HEAP_SIZE], vf_m24[HEAP_SIZE], vf_m25[HEAP_SIZE], vf_m26[HEAP_SIZE], vf_m27[HEAP_SIZE], vf_m28[HEAP_SIZE], vf_m29[HEAP_SIZE], vf_m30[HEAP_SIZE], vf_m31[HEAP_SIZE];
static char *const vf_mem[] = { vf_m0, vf_m1, vf_m2, vf_m3, vf_m4, vf_m5, vf_m6, vf_m7, vf_m8, vf_m9, vf_m10, vf_m11, vf_m12, vf_m13, vf_m14, vf_m15, vf_m16, vf_m17, vf_m18, vf_m19, vf_m20, vf_m21, vf_m22, vf_m23, vf_m24, vf_m25, vf_m26, vf_m27, vf_m28, vf_m29, vf_m30, vf_m31 };
#if HEAP_SLOTS > 32
#error HEAP_SLOTS
#endif
static size_t vf_sz[HEAP_SLOTS];
static char   vf_used[HEAP_SLOTS];
static int vf_live, vf_allocs, vf_fail_at = -1;
static int vf_failed;

static int
vf_take(size_t n)
{
    if (vf_allocs++ == vf_fail_at) { vf_failed = 1; return -1; }
    if (n > HEAP_SIZE) { vf_failed = 1; return -1; }
    for (int i = 0; i < HEAP_SLOTS; i++) {
        if (vf_used[i]) continue;
        vf_used[i] = 1;
        vf_sz[i] = n ? n : 1;  /* memcpy(p, q, 0) needs a pointer into an object */
        vf_live++;
        return i;
    }
    VF_fail();      /* harness bug: HEAP_SLOTS too small, or a leak */
    return -1;
}

#define VF_PTR(i)  ((void *)&vf_mem[i][HEAP_SIZE - vf_sz[i]])

void *
vf_malloc(size_t n)
{
    int i = vf_take(n);
    if (i < 0) { errno = ENOMEM; return 0; }
    memset(vf_mem[i], Frama_C_interval(0, 255), HEAP_SIZE);
    return VF_PTR(i);
}

void *
vf_calloc(size_t a, size_t b)
{
    if (b > 0 && a > ((size_t)-1) / b) { vf_failed = 1; return 0; }
    int i = vf_take(a * b);
    if (i < 0) { errno = ENOMEM; return 0; }
    memset(vf_mem[i], 0, HEAP_SIZE);
    return VF_PTR(i);
}

static int
vf_find(const void *p)
{
    for (int i = 0; i < HEAP_SLOTS; i++)
        if (vf_used[i] && p == VF_PTR(i)) return i;
    VF_fail();      /* free/realloc of something that is not a live allocation */
    return -1;
}

/* freed memory is indeterminate: reading it is an error */
static void
vf_release(int i)
{
    char gone[HEAP_SIZE];
    memcpy(vf_mem[i], gone, HEAP_SIZE);
    vf_used[i] = 0;
    vf_live--;
}

void
vf_free(void *p)
{
    if (!p) return;
    int i = vf_find(p);
    if (i < 0) return;
    vf_release(i);
}

void *
vf_realloc(void *p, size_t n)
{
    if (!p) return vf_malloc(n);
    int i = vf_find(p);
    if (i < 0) return 0;
    size_t o = vf_sz[i];
    void *q = vf_malloc(n);
    if (!q) return 0;
    memcpy(q, p, o < n ? o : n);
    vf_release(i);
    return q;
}

/* forget everything (between scenes) */
static void
vf_heap_reset(void)
{
    for (int i = 0; i < HEAP_SLOTS; i++) { vf_used[i] = 0; vf_sz[i] = 0; }
    vf_live = vf_allocs = vf_failed = 0;
    vf_fail_at = -1;
}

#define malloc(n)      vf_malloc(n)
#define calloc(a, b)   vf_calloc(a, b)
#define realloc(p, n)  vf_realloc(p, n)
#define free(p)        vf_free(p)
#define strdup(s)      vf_strdup(s)
#define strndup(s, n)  vf_strndup(s, n)

static char *
vf_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = vf_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}

static char *
vf_strndup(const char *s, size_t k)
{
    size_t n = strnlen(s, k);
    char *p = vf_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
#endif
