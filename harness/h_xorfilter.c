/* xor filters: every key is a member */
#include "vf.h"
#define HEAP_SIZE 2048
#define HEAP_SLOTS 16
#include "vf_heap.h"
#include <unistd.h>
#include <sys/random.h>
static uint64_t vfh_salt_; static int asked_;
static int vf_getentropy(void *p, size_t n) { PROVE(n == 8); asked_++; *(uint64_t *)p = vfh_salt_; vfh_salt_ = vfh_salt_ * 0x9E3779B97F4A7C15UL + 12345; return 0; }
#define getentropy vf_getentropy
static void *vfh_map_; static size_t mapsz_; static int unmaps_;
static int vf_munmap(void *p, size_t n) { PROVE(vfh_map_ && p == vfh_map_ && n == mapsz_); vfh_map_ = 0; unmaps_++; return 0; }
#define munmap vf_munmap
#include "src/hashtable/xorfilter.c"

/* keys by pattern */
static uint64_t
vfh_key(int pat, int i)
{
    switch (pat) {
    case 0:  return i;
    case 1:  return ~(uint64_t)i;
    case 2:  return (uint64_t)i << 56;
    default: return (i + 1) * 0xD6E8FEB86659FD93UL;
    }
}

static void
vfh_scene(int w16, int n, int pat, uint64_t salt)
{
    uint64_t K[40];
    vf_heap_reset();
    vfh_salt_ = salt;
    asked_ = 0;
    for (int i = 0; i < n; i++) K[i] = vfh_key(pat, i);
    Xorfilter *x = w16 ? Xorfilter_new16(K, n) : Xorfilter_new8(K, n);
    if (n == 0) { PROVE(x == 0 && vf_live == 0); VF_END; }
    PROVE(x != 0);
    PROVE(x->n == (uint32_t)n && x->size == xorfilter_calc_size(n) && !x->is_16 == !w16 && !x->is_mmap);
    for (int i = 0; i < n; i++) PROVE(K[i] == vfh_key(pat, i) && Xorfilter_contains(x, K[i]));
    /* the filter is as big as everybody thinks */
    PROVE(xorfilter_size(x) >= 3 * (uint64_t)x->size * (w16 ? 2 : 1));
    ((char *)x->ptr)[xorfilter_size(x) - 1] = 1;
    VF_reach();
    /* any key: inside the filter */
    Xorfilter_contains(x, Frama_C_unsigned_long_interval(0, -1UL));
    x->seed = Frama_C_unsigned_long_interval(0, -1UL);
    Xorfilter_contains(x, K[0]);
    Xorfilter_delete(x);
    PROVE(vf_live == 0);
    VF_END;
}

/* size in bytes, for any number of slots */
static void
vfh_scene_size(void)
{
    Xorfilter x;
    static const uint32_t S[] = { 0, 1, 10, 0x2aaaaaaaU, 0x55555555U, 0x55555556U, 0x80000000U, 0xffffffffU };
    for (int i = 0; i < NELEM(S); i++) {
        x.size = S[i];
        x.is_16 = 0; PROVE(xorfilter_size(&x) == (uint64_t)S[i] * 3);
        x.is_16 = 1; PROVE(xorfilter_size(&x) == (uint64_t)S[i] * 6);
    }
    VF_reach();
    VF_END;
}


int main(void)
{
    int k_ = 0;
    static const int ns[] = { 0, 1, 2, 3, 5, 8, 13, 18, 19, 25 };
    vfh_scene_size();
    for (int w = 0; w < 2; w++)
        for (int i = 0; i < NELEM(ns); i++)
            for (int p = 0; p < 4; p++)
                for (int s = 0; s < SALTS; s++) {
                    if (k_++ % VF_NSHARD != VF_SHARD) continue;
                    vfh_scene(w, ns[i], p, s == 0 ? 0x1234 : s == 1 ? 0 : -1UL);
                }
    return 0;
}
