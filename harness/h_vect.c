/* vect.h: one operation on any vector (size, capacity) gives exactly the expected elements, inside its allocation. */
#include "vf.h"
#define HEAP_SLOTS 3
#define HEAP_SIZE 1024
#include "vf_heap.h"
#include "fast/vect.h"

#ifdef WIDE_T
typedef struct { char a; long b; short c; } T;
static T vfh_mkT(int x) { T t = { (char)x, x, (short)-x }; return t; }
static long vfh_valT(T t) { return t.a == (char)t.b && t.c == (short)-t.b ? t.b : -1; }
#define MK(x)   vfh_mkT(x)
#define VAL(e)  vfh_valT(e)
#endif
VECT_TYPEDEF(vi, T);
VECT_TYPEDEF(vj, T);
#ifndef MK
#define MK(x)     ((T)(x))
#define VAL(e)    ((long)(e))
#endif
#define TAG(i)    (3 + 5 * (i))

static int vfh_rnd_at, vfh_rnd_seq[8];
static uint32_t vfh_rnd(void) { return vfh_rnd_seq[vfh_rnd_at++ % 8]; }

static void
vfh_mk(vi *v, size_t n, size_t cap, int base)
{
    v->arr = cap ? NEWZA(T, cap) : 0; v->cap = cap; v->size = n;
    for (size_t i = 0; i < n; i++) v->arr[i] = MK(TAG(base + (int)i));
}
static int vfh_exp_[24];
static int vfh_nexp;
static void
vfh_is(vi *v)
{
    PROVE(VECT_LEN(v) == vfh_nexp);
    PROVE(VECT_CAPACITY(v) >= vfh_nexp);
    for (int i = 0; i < vfh_nexp; i++) { PROVE(VAL(VECT_ELEM(v, i)) == vfh_exp_[i]); }
    /* iteration */
    int k = 0; size_t j;
    T *p;
    if (v->arr) {
        if (v->cap > v->size) { VECT_FOR_EACH(v, p) { PROVE(k < vfh_nexp); PROVE(VAL(*p) == vfh_exp_[k]); k++; } PROVE(k == vfh_nexp); }
        k = 0;
        VECT_FOR_EACHi(v, j, p) { PROVE(j == k && k < vfh_nexp); PROVE(VAL(*p) == vfh_exp_[k]); k++; }
        PROVE(k == vfh_nexp);
    }
    /* the whole capacity belongs to it */
    for (size_t i = vfh_nexp; i < v->cap; i++) v->arr[i] = MK(1);
}
static int vfh_cmp(const void *a, const void *b) { long x = VAL(*(const T *)a), y = VAL(*(const T *)b); return x < y ? -1 : x > y; }
static int vfh_qs_n;
#define qsort vf_qsort
static void vf_qsort(void *b, size_t n, size_t sz, int (*c)(const void *, const void *))
{
    T *a = (T *)b;
    PROVE(sz == sizeof (T)); vfh_qs_n = n;
    for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(&a[j - 1], &a[j]) > 0; j--) { T t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}

static void
vfh_scene(size_t n, size_t cap, int op, int arg)
{
    vi v, w;
    int i;
    vf_heap_reset();
    vfh_mk(&v, n, cap, 0);
    vfh_nexp = n;
    for (i = 0; i < n; i++) vfh_exp_[i] = TAG(i);
    switch (op) {
        case 0: VECT_PUSH_BACK(&v, MK(77)); vfh_exp_[vfh_nexp++] = 77; break;
        case 1: VECT_PUSH_FRONT(&v, MK(77)); for (i = vfh_nexp++; i > 0; i--) vfh_exp_[i] = vfh_exp_[i - 1]; vfh_exp_[0] = 77; break;
        case 2: if (!n) VF_END; { T e = VECT_POP_BACK(&v); PROVE(VAL(e) == TAG((int)n - 1)); vfh_nexp--; } break;
        case 3: if (!n) VF_END; { T e = VECT_POP_FRONT(&v); PROVE(VAL(e) == TAG(0)); for (i = 0; i + 1 < n; i++) vfh_exp_[i] = vfh_exp_[i + 1]; vfh_nexp--; } break;
        case 4: VECT_RESERVE(&v, (size_t)arg); PROVE(VECT_CAPACITY(&v) >= arg); break;
        case 5: VECT_ENSURE(&v, (size_t)arg); PROVE(VECT_CAPACITY(&v) >= n + arg); for (i = 0; i < arg; i++) { VECT_GET_NEXT(&v) = MK(60 + i); vfh_exp_[vfh_nexp++] = 60 + i; } break;
        case 6: VECT_RESET(&v); vfh_nexp = 0; break;
        case 7: vfh_mk(&w, arg, arg + 1, 10); VECT_COPY(&v, &w); PROVE(v.arr != w.arr && w.size == arg); for (vfh_nexp = 0; vfh_nexp < arg; vfh_nexp++) { vfh_exp_[vfh_nexp] = TAG(10 + vfh_nexp); PROVE(VAL(w.arr[vfh_nexp]) == TAG(10 + vfh_nexp)); } VECT_FINI(&w); break;
        case 8: vfh_mk(&w, arg, arg + 1, 10); VECT_APPEND_VECT(&v, &w); PROVE(w.size == arg); for (i = 0; i < arg; i++) vfh_exp_[vfh_nexp++] = TAG(10 + i); VECT_FINI(&w); break;
        case 9: vfh_mk(&w, arg, arg + 1, 10); VECT_SWAP(&v, &w); PROVE(w.size == n && w.cap == cap); for (i = 0; i < n; i++) PROVE(VAL(w.arr[i]) == TAG(i)); for (vfh_nexp = 0; vfh_nexp < arg; vfh_nexp++) vfh_exp_[vfh_nexp] = TAG(10 + vfh_nexp); VECT_FINI(&w); break;
        case 10: if (!cap) VF_END; VECT_INIT_FROM(&w, &v); PROVE(w.size == n && w.arr != v.arr); for (i = 0; i < n; i++) PROVE(VAL(w.arr[i]) == TAG(i)); VECT_PUSH_BACK(&w, MK(9)); PROVE(w.size == n + 1); PROVE(VAL(w.arr[n]) == 9); VECT_FINI(&w); break;
        case 11: for (i = 0; i < n; i++) v.arr[i] = MK(vfh_exp_[(i * 3 + arg) % n]); if (n == 3 || n == 6) { for (i = 0; i < n; i++) v.arr[i] = MK(vfh_exp_[n - 1 - i]); } VECT_SORT(&v, vfh_cmp); PROVE(vfh_qs_n == n); break;
        case 12: VECT_FINI(&v); PROVE(v.size == 0 && v.cap == 0 && vf_live == 0); VECT_PUSH_BACK(&v, MK(5)); vfh_exp_[0] = 5; vfh_nexp = 1; break;
        case 13: VECT_FINI(&v); VECT_INIT(&v, (size_t)arg); PROVE(v.cap >= arg && v.cap > 0 && v.size == 0); vfh_nexp = 0; break;
        case 14: if (!n) VF_END; { T e = VECT_LAST_ELEM(&v), f = VECT_FIRST_ELEM(&v), g = VECT_TOP(&v); PROVE(VAL(e) == TAG((int)n - 1) && VAL(f) == TAG(0) && VAL(g) == VAL(e)); VECT_POP(&v); vfh_nexp--; } break;
        case 15: if (!cap) VF_END; VECT_APPEND_VECT(&v, &v); for (i = 0; i < n; i++) vfh_exp_[vfh_nexp++] = TAG(i); break;
    }
    VF_reach();
    vfh_is(&v);
    VECT_FINI(&v);
    PROVE(vf_live == 0);
    VF_END;
}

/* shuffle is a permutation and sampling takes elements of the source, whatever the random numbers */
static void
vfh_scene_rnd(size_t n, size_t k, int code)
{
    vi v, d;
    int cnt[24] = { 0 };
    vf_heap_reset();
    vfh_mk(&v, n, n + 1, 0);
    for (int i = 0; i < 8; i++) { vfh_rnd_seq[i] = code % 7 == 6 ? -1 : code % 7; code = code / 7 + 3 * i; }
    vfh_rnd_at = 0;
    VECT_SHUFFLE(&v, vfh_rnd);
    for (int i = 0; i < n; i++) { long t = VAL(v.arr[i]); for (int j = 0; j < n; j++) if (t == TAG(j)) cnt[j]++; }
    for (int j = 0; j < n; j++) PROVE(cnt[j] == 1);
    vfh_mk(&d, 0, 1, 0);
    int r = VECT_SAMPLE(&d, &v, k, vfh_rnd);
    PROVE(!r == (k >= n));
    VF_reach();
    if (r) {
        PROVE(d.size == k && d.cap >= k);
        for (int j = 0; j < n; j++) cnt[j] = 0;
        for (int i = 0; i < k; i++) { long t = VAL(d.arr[i]); int hit = 0; for (int j = 0; j < n; j++) if (t == TAG(j)) { hit = 1; cnt[j]++; } PROVE(hit); }
        for (int j = 0; j < n; j++) PROVE(cnt[j] <= 1);     /* no element twice */
    }
    if (n) { T e = VECT_RAND_ELEM(&v, vfh_rnd); int hit = 0; for (int j = 0; j < n; j++) if (VAL(e) == TAG(j)) hit = 1; PROVE(hit); }
    VECT_FINI(&v); VECT_FINI(&d);
    PROVE(vf_live == 0);
    VF_END;
}

int main(void)
{
    for (int op = VF_SHARD; op < 16; op += VF_NSHARD)
        for (size_t cap = op == 12 ? 1 : 0; cap <= MAXC; cap++)
            for (size_t n = 0; n <= cap; n++) {
                static const int args[] = { 0, 1, 2, 5, 9 };
                int takes = op == 4 || op == 5 || op == 7 || op == 8 || op == 9 || op == 13;
                for (int a = 0; a < (takes ? 5 : 1); a++) vfh_scene(n, cap, op, args[a]);
            }
    for (size_t n = 0; n <= 5; n++) for (size_t k = 0; k <= 5; k++) for (int c = 0; c < 40; c += 3) vfh_scene_rnd(n, k, c * 17 + 1);
    return 0;
}
