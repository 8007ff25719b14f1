/* The locking hash table: every operation against a map; with LOCKS, the lock
 * protocol: no lock taken twice or left held, nothing shared read without the
 * table's lock, and another thread's operation before any acquisition. */
#include "vf.h"
#define HEAP_SIZE 1024
#define HEAP_SLOTS 32
#include "vf_heap.h"
static uint32_t vfh_rnd_;
uint32_t vf_rnd(void) { return vfh_rnd_; }
static void vf_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
#define qsort(b, n, z, f)  vf_qsort(b, n, z, f)
#define arc4random vf_rnd
#include "src/hashtable/hashtab.c"
#include "src/hashtable/hashtab_iter.c"

/* insertion sort */
static void
vf_qsort(void *b, size_t n, size_t z, int (*f)(const void *, const void *))
{
    PROVE(z == sizeof(indir_node));
    indir_node *a = b;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && f(&a[j - 1], &a[j]) > 0; j--) { indir_node t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}

typedef struct { int key; uint32_t hash; int id; } datum;
#define ND 10
static datum D[ND], E[ND];      /* two items for each key */
static datum *vfh_in_[ND];          /* what the table should hold for each key */
static int vfh_ndtor, vfh_nheld, vfh_cmps_ok;
static hash_table *T;
static datum *vfh_gone;
static char vfh_L_none_, vfh_deleting;

static uint32_t vfh_h_(const void *p) { return ((const datum *)p)->hash; }
static int vfh_cmp_(const void *a, const void *b)
{
#ifdef LOCKS
    PROVE(vfh_nheld > 0);
#endif
    return ((const datum *)a)->key - ((const datum *)b)->key;
}
static void vfh_dtor_(void *p) { vfh_gone = p; vfh_ndtor++; }
static void *vfh_mm_alloc(void *c, size_t n) { PROVE(c == (void *)&vfh_ndtor); return vf_malloc(n); }
static void vfh_mm_free(void *c, void *p) { PROVE(c == (void *)&vfh_ndtor); vf_free(p); }

#ifdef LOCKS
#define NL 40
static struct lk { int live, held; } L[NL];
static int vfh_nl, intrude_at = -1, intr_key, locks_taken;
static hash_bucket *vfh_s_buckets; static size_t s_size; static hash_table_stat s_stats;
static void
vfh_hide(void)
{
    hash_bucket *b; size_t z; hash_table_stat s;        /* indeterminate: reading it is an error */
    vfh_s_buckets = T->buckets; s_size = T->size; s_stats = T->stats;
    memcpy(&T->buckets, &b, sizeof b); memcpy(&T->size, &z, sizeof z); memcpy(&T->stats, &s, sizeof s);
}
static void vfh_show(void) { T->buckets = vfh_s_buckets; T->size = s_size; T->stats = s_stats; }
static void
vfh_lk_lock(void *o)
{
    struct lk *l = o;
    PROVE(l->live);
    if (l == &L[0] && T && locks_taken++ == intrude_at) {
        intrude_at = -1;
        /* another thread gets there first */
        int r = hash_table_insert(T, &E[intr_key]);
        if (vfh_in_[intr_key]) PROVE(r == -EEXIST);
        else { PROVE(r == 0); vfh_in_[intr_key] = &E[intr_key]; }
    }
    PROVE(!l->held);
    l->held = 1;
    vfh_nheld++;
    if (l == &L[0] && T) vfh_show();
}
static void
vfh_lk_unlock(void *o)
{
    struct lk *l = o;
    PROVE(l->live && l->held);
    l->held = 0;
    vfh_nheld--;
    if (l == &L[0] && T && !vfh_deleting) vfh_hide();
}
static void vfh_lk_dtor(void *o) { struct lk *l = o; PROVE(l->live && !l->held); l->live = 0; }
static void vfh_lk_create(lockmgr *l) { if (vfh_nl >= NL) { VF_fail(); return; } L[vfh_nl].live = 1; L[vfh_nl].held = 0; l->opaq = &L[vfh_nl]; vfh_nl++; }
static const lockmgr LK = { vfh_lk_create, vfh_lk_lock, vfh_lk_unlock, vfh_lk_dtor, 0 };
#define QUIET()  PROVE(vfh_nheld == 0)
#define PEEK(s)  do { vfh_show(); s; vfh_hide(); } while (0)
#else
#define QUIET()
#define PEEK(s)  do { s; } while (0)
#endif

static void
vfh_sees(void)
{
    size_t n = 0;
    for (int i = 0; i < ND; i++) {
        void *v = &vfh_L_none_;
        int r = hash_table_lookup(T, i & 1 ? &D[i] : &E[i], &v);
        QUIET();
        PROVE(r == (vfh_in_[i] != 0));
        PROVE(v == (void *)vfh_in_[i]);
    }
    hash_table_stat s;
    PROVE(hash_table_stats(T, &s) == &s);
    QUIET();
    for (int i = 0; i < ND; i++) n += vfh_in_[i] != 0;
    PROVE(s.nodes == n);
    size_t fill = 0, m = 0;
    PEEK(
    PROVE(s.size == T->size);
    for (size_t i = 0; i < T->size; i++) {
        size_t c = 0;
        hash_node *p;
        for (p = SL_FIRST(&T->buckets[i].head); p; p = SL_NEXT(p, link)) c++;
        PROVE(c == T->buckets[i].count);
        PROVE(c <= s.maxchainlen);
        fill += c > 0;
        m += c;
    });
    PROVE(s.fill == fill && m == n);
}

static void vfh_ins(int i, int second)
{
    datum *d = second ? &E[i] : &D[i];
    int was = vf_failed;
    int r = hash_table_insert(T, d);
    QUIET();
    if (vfh_in_[i]) PROVE(r == -EEXIST);
    else if (r == -ENOMEM) PROVE(vf_failed > was);
    else { PROVE(r == 0); vfh_in_[i] = d; }
}
static void vfh_rep(int i)
{
    int n0 = vfh_ndtor, was = vf_failed;
    int r = hash_table_replace(T, &E[i]);
    QUIET();
    datum *o = vfh_in_[i];
    if (r == -ENOMEM) { PROVE(!o && vf_failed > was); return; }
    PROVE(r == 0);
    vfh_in_[i] = &E[i];
    PROVE(vfh_ndtor == n0 + (o && T->dtor ? 1 : 0));
    if (o && T->dtor) PROVE(vfh_gone == o);
}
static void vfh_probe(int i)
{
    int was = vf_failed;
    datum *r = hash_table_probe(T, &D[i]);
    QUIET();
    if (!r) { PROVE(!vfh_in_[i] && vf_failed > was); return; }
    if (!vfh_in_[i]) vfh_in_[i] = &D[i];
    PROVE(r == vfh_in_[i]);
}
static void vfh_rem(int i, int want)
{
    int n0 = vfh_ndtor;
    void *v = &vfh_L_none_;
    int r = hash_table_remove(T, &D[i], want ? &v : 0);
    QUIET();
    PROVE(r == (vfh_in_[i] ? 0 : -ENOENT));
    if (want) PROVE(v == (vfh_in_[i] ? (void *)vfh_in_[i] : (void *)&vfh_L_none_));
    PROVE(vfh_ndtor == n0 + (vfh_in_[i] && T->dtor ? 1 : 0));
    if (vfh_ndtor > n0) PROVE(vfh_gone == vfh_in_[i]);
    vfh_in_[i] = 0;
}

static int vfh_visits[ND], vfh_last_key, vfh_cookie_;
static void vfh_visit(void *c, const void *p) { PROVE(c == (void *)&vfh_cookie_); vfh_visits[((const datum *)p)->id]++; }
static int vfh_odd(void *c, const void *p) { vfh_visit(c, p); return ((const datum *)p)->id & 1; }
static void vfh_all_once(void) { for (int i = 0; i < ND; i++) { PROVE(vfh_visits[i] == (vfh_in_[i] != 0)); vfh_visits[i] = 0; } }

static void
vfh_iters(void)
{
    for (int sorted = 0; sorted <= 1; sorted++) {
        hash_table_iter_t it = 0;
        int was = vf_failed, r = hash_table_iter_new(&it, T, sorted);
        QUIET();
        if (r == -ENOMEM) { PROVE(vf_failed > was && it == 0); continue; }
        PROVE(r == 0 && it);
        for (int twice = 0; twice < 2; twice++) {
            int more = hash_table_iter_first(it), last = -1000;
            datum *d;
            for (int k = 0; k <= ND; k++) {
                d = hash_table_iter_item(it);
                QUIET();
                PROVE((more == 0) == (d != 0));
                if (!d) break;
                PROVE(d == vfh_in_[d->id]);
                if (sorted) { PROVE(d->key > last); last = d->key; }
                vfh_visits[d->id]++;
                more = hash_table_iter_next(it);
                QUIET();
                PROVE(more == 0 || more == EOF);
            }
            PROVE(d == 0);
            vfh_all_once();
        }
        PROVE(hash_table_iter_next(it) == EOF && hash_table_iter_item(it) == 0);
        hash_table_iter_delete(it);
        QUIET();
    }
}
static void
vfh_bucket_of(int i)
{
    hash_table_iter_t it = 0;
    int was = vf_failed, r = hash_table_bucket_iter_new(&it, T, &D[i]);
    QUIET();
    if (r == -ENOMEM) { PROVE(vf_failed > was); return; }
    PROVE(r == 0 && it);
    int found = 0;
    r = hash_table_iter_first(it);
    for (int k = 0; k <= ND; k++) {
        datum *d = hash_table_iter_item(it);
        PROVE((r == 0) == (d != 0));
        if (!d) break;
        PROVE(d == vfh_in_[d->id]);
        found += d->id == i;
        r = hash_table_iter_next(it);
        QUIET();
    }
    PROVE(hash_table_iter_next(it) == EOF);
    PROVE(found == (vfh_in_[i] != 0));
    hash_table_iter_delete(it);
    QUIET();
}

static int
vfh_make(int logsize, int fillmax, int hashes, int dtor, int fail)
{
    vf_heap_reset();
    static const int order[ND] = { 4, 1, 8, 0, 9, 3, 2, 7, 6, 5 };
    for (int i = 0; i < ND; i++) {
        uint32_t h = hashes == 0 ? i : hashes == 1 ? 0x80000000u : hashes == 2 ? (i & 1 ? 7 : 0xfffffff8u) : i * 0x9E3779B9u;
        D[i].key = E[i].key = order[i];
        D[i].hash = E[i].hash = h;
        D[i].id = E[i].id = i;
        vfh_in_[i] = 0;
        vfh_visits[i] = 0;
    }
    vfh_ndtor = vfh_nheld = 0;
    T = 0;
    hash_table_policy p;
    memset(&p, 0, sizeof p);
    p.hash = vfh_h_; p.cmp = vfh_cmp_; p.dtor = dtor ? vfh_dtor_ : 0;
    p.fillmax = fillmax; p.logsize = logsize;
    p.mem.alloc = vfh_mm_alloc; p.mem.free = vfh_mm_free; p.mem.context = &vfh_ndtor;
#ifdef LOCKS
    vfh_nl = 0; locks_taken = 0; intrude_at = -1;
    p.lock = LK;
#endif
    vf_fail_at = fail;
    hash_table *t = 0;
    vfh_deleting = 0;
    int r = hash_table_new(&t, &p);
    QUIET();
    if (r) { PROVE(r == -ENOMEM && vf_failed && vf_live == 0); return 0; }
    PROVE(t != 0);
    T = t;
#ifdef LOCKS
    vfh_hide();
#endif
    PEEK(PROVE(T->size == (size_t)1 << logsize));
    return 1;
}

static void
vfh_drop(void)
{
    int n = 0, n0 = vfh_ndtor;
    for (int i = 0; i < ND; i++) n += vfh_in_[i] != 0;
#ifdef LOCKS
    intrude_at = -1;
#endif
    vfh_deleting = 1;
    int d = T->dtor != 0;
    hash_table_delete(T);
    QUIET();
    PROVE(vfh_ndtor == n0 + (d ? n : 0));
    PROVE(vf_live == 0);
#ifdef LOCKS
    for (int i = 0; i < vfh_nl; i++) PROVE(!L[i].live);
#endif
}

/* m keys in, some of them again, then a mix that depends on a and b */
static int vfh_at_ = -1;
static void
vfh_scene(int logsize, int fillmax, int hashes, int dtor, int m, int a, int b, int fail)
{
    vfh_rnd_ = a & 1 ? 0xa5a5a5a7u : 0;
    if (!vfh_make(logsize, fillmax, hashes, dtor, fail)) { VF_END; }
#ifdef LOCKS
    intr_key = b;
    intrude_at = vfh_at_;
#endif
    for (int i = 0; i < m; i++) {
        if (i & 1) vfh_probe(i); else vfh_ins(i, 0);
        if (i == a) { vfh_ins(i, 1); vfh_ins(0, 1); vfh_probe(i); }
    }
    vfh_sees();
    vfh_rep(a);
    vfh_rem(b, 1);
    vfh_rem(b, 0);
#ifdef LOCKS
    int at = intrude_at;        /* not while iterating: documented */
    intrude_at = -1;
#endif
    vfh_iters();
    vfh_bucket_of(a); vfh_bucket_of(b);
#ifdef LOCKS
    intrude_at = at >= 0 ? locks_taken + at % 8 : -1;
#endif
    vfh_ins(b, 1);
    vfh_rep(b);
    vfh_rem(a, a & 1);
    vfh_sees();
#ifdef LOCKS
    intrude_at = -1;
#endif
    hash_table_apply(T, vfh_visit, &vfh_cookie_);
    QUIET();
    vfh_all_once();
    int n = 0, n0 = vfh_ndtor;
    for (int i = 1; i < ND; i += 2) n += vfh_in_[i] != 0;
    PROVE(hash_table_remove_if(T, vfh_odd, &vfh_cookie_) == n);
    QUIET();
    vfh_all_once();
    PROVE(vfh_ndtor == n0 + (dtor ? n : 0));
    for (int i = 1; i < ND; i += 2) vfh_in_[i] = 0;
    VF_reach();
    vfh_sees();
    vfh_drop();
    VF_END;
}

static void
vfh_bad(void)
{
    hash_table_t t;
    hash_table_policy p;
    memset(&p, 0, sizeof p);
    PROVE(hash_table_new(0, &p) == -EINVAL);
    PROVE(hash_table_new(&t, 0) == -EINVAL);
    PROVE(hash_table_new(&t, &p) == -EINVAL);
    PROVE(hash_table_lookup(0, &D[0], 0) == -EINVAL && hash_table_insert(0, &D[0]) == -EINVAL && hash_table_remove(0, &D[0], 0) == -EINVAL);
    PROVE(hash_table_probe(0, &D[0]) == 0 && hash_table_replace(0, &D[0]) == -EINVAL && hash_table_remove_if(0, vfh_odd, 0) == -EINVAL);
    hash_table_delete(0);
    hash_table_iter_delete(0);
    VF_reach();
    /* sizes whose array does not fit in memory */
    for (int lg = 58; lg < 64; lg++) {
        vf_heap_reset();
        p.hash = vfh_h_; p.cmp = vfh_cmp_; p.logsize = lg; p.mem.alloc = vfh_mm_alloc; p.mem.free = vfh_mm_free; p.mem.context = &vfh_ndtor;
        PROVE(hash_table_new(&t, &p) == -ENOMEM);
        PROVE(vf_live == 0);
    }
    VF_END;
}

int main(void)
{
    int k_ = 0;
    static const struct { int lg, fill, h; } C[] = { { 1, 0, 0 }, { 1, 99, 1 }, { 2, 50, 3 }, { 1, 1, 2 }, { 2, 0, 1 } };
    static const int ms[] = { 0, 1, 2, 5, 8 };
    vfh_bad();
    for (int c = 0; c < NELEM(C); c++)
        for (int j = 0; j < NELEM(ms); j++)
            for (int a = 0; a <= ms[j]; a += STEP)
                for (int b = 0; b <= ms[j]; b += STEP) {
                    if (k_++ % VF_NSHARD != VF_SHARD) continue;
                    vfh_scene(C[c].lg, C[c].fill, C[c].h, a != b, ms[j], a, b, -1);
                }
#ifdef LOCKS
    /* another thread's insertion before each acquisition */
    for (int c = 0; c < NELEM(C); c++)
        for (vfh_at_ = 0; vfh_at_ < 36; vfh_at_ += ATSTEP)
            for (int b = 1; b < 4; b++) {
                if (k_++ % VF_NSHARD != VF_SHARD) continue;
                vfh_scene(C[c].lg, C[c].fill, C[c].h, 1, 5, 1, b, -1);
            }
    vfh_at_ = -1;
#endif
    /* each allocation failing in turn */
    for (int c = 0; c < NELEM(C); c += FSTEP)
        for (int f = 0; f < 14; f++) {
            if (k_++ % VF_NSHARD != VF_SHARD) continue;
            vfh_scene(C[c].lg, C[c].fill, C[c].h, 1, 5, 1, 3, f);
        }
    return 0;
}
