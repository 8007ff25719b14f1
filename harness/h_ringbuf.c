/* inc/fast/ringbuf.h: ring of pointers, single or multiple producers and
 * consumers, in bulk.
 *
 * Thread-modular, as h_mpmc.c: one operation, other threads' claims and
 * completions before its atomic accesses. A load of an index only the other
 * kind of thread moves may return an old value, unless this thread has
 * synchronised with one that saw a newer one. */
#include "vf.h"
#include "vf_atomic.h"
static int vf_memalign(void **p, size_t al, size_t n);
#define posix_memalign vf_memalign
#define volatile
#include "fast/ringbuf.h"
#undef volatile

#ifndef MOVES
#define MOVES 2
#endif
#ifndef STEP
#define STEP 1
#endif
#ifndef PRE
#define PRE 1
#endif

enum { ENQ, DEQ, LOOK, INIT };
#define MAXN 16
static rte_ring *R;
static int vfh_role, vfh_multi, N, M_, vfh_moves, vfh_claimed, vfh_published, vfh_seen_no, vfh_hooks, vfh_quiet, vfh_relfence, vfh_spur;
static unsigned vfh_want;                           /* elements asked for */
static vf_atom vfh_mh, vfh_mn;                          /* [mh, mn) claimed by this thread */
static vf_atom *PH, *PT, *CH, *CT;
static void **D;
static void *T[MAXN], *S[MAXN], *SF[MAXN];
static vf_atom vfh_acq_pt, vfh_acq_ct, vfh_rlx_pt, vfh_rlx_ct, vfh_rlx_ph, vfh_rlx_ch;
static vf_atom vfh_min_pt, vfh_min_ct;                  /* this thread cannot see older values than these */
static vf_atom vfh_clm_pt, vfh_clm_ct;                  /* what the others that claimed last had seen */
static vf_atom vfh_pe[4][2], vfh_pd[4][2];
static int vfh_npe, vfh_npd;
static vf_atom vfh_base;                            /* first ticket */
#define POISON  ((void *)19)
static void *vfh_mine[MAXN];

static void *vfh_val(vf_atom t) { return (void *)(0x100000 + (t & 0xffff) * 16); }
#define IDX(t)  ((int)((t) & M_))
#define LT(a, b) ((long)((a) - (b)) < 0)

static int
vf_memalign(void **p, size_t al, size_t n)
{
    PROVE(al >= 64 && (al & (al - 1)) == 0);
    *p = malloc(n);
    return 0;
}

static void
vfh_check_slots(void)
{
    for (int i = 0; i < N; i++) {
        if (D[i] == S[i]) continue;
        PROVE(vfh_role == ENQ && vfh_claimed && !vfh_published && (((vf_atom)i - vfh_mh) & M_) < vfh_mn - vfh_mh);
        S[i] = D[i];
    }
}

static void
vfh_show(vf_atom upto)
{
    for (vf_atom t = *CT; LT(t, upto); t++) D[IDX(t)] = S[IDX(t)] = T[IDX(t)];
}

static int
vfh_step(int what)
{
    vf_atom k = 1 + (what == 2 || what == 5);
    switch (what) {
    case 1: case 2:                             /* another producer claims k */
        if (vfh_npe >= 2 || (vfh_role == ENQ && !vfh_multi) || (vf_atom)M_ + *CT - *PH < k) return 0;
        vfh_pe[vfh_npe][0] = *PH;
        *PH += k;
        vfh_pe[vfh_npe++][1] = *PH;
        vfh_clm_ct = *CT;
        return 1;
    case 3:                                     /* the next in line has written its elements */
        for (int i = 0; i < vfh_npe; i++) {
            if (vfh_pe[i][0] != *PT) continue;
            for (vf_atom t = vfh_pe[i][0]; t != vfh_pe[i][1]; t++) {
                T[IDX(t)] = vfh_val(t);
                D[IDX(t)] = S[IDX(t)] = POISON;
            }
            *PT = vfh_pe[i][1];
            for (vfh_npe--; i < vfh_npe; i++) { vfh_pe[i][0] = vfh_pe[i + 1][0]; vfh_pe[i][1] = vfh_pe[i + 1][1]; }
            return 1;
        }
        return 0;
    case 4: case 5:                             /* another consumer claims k */
        if (vfh_npd >= 2 || (vfh_role == DEQ && !vfh_multi) || *PT - *CH < k) return 0;
        vfh_pd[vfh_npd][0] = *CH;
        *CH += k;
        vfh_pd[vfh_npd++][1] = *CH;
        vfh_clm_pt = *PT;
        return 1;
    case 6:
        for (int i = 0; i < vfh_npd; i++) {
            if (vfh_pd[i][0] != *CT) continue;
            for (vf_atom t = vfh_pd[i][0]; t != vfh_pd[i][1]; t++) D[IDX(t)] = S[IDX(t)] = POISON;
            *CT = vfh_pd[i][1];
            for (vfh_npd--; i < vfh_npd; i++) { vfh_pd[i][0] = vfh_pd[i + 1][0]; vfh_pd[i][1] = vfh_pd[i + 1][1]; }
            return 1;
        }
        return 0;
    }
    return 0;
}

static vf_atom
VF_ENTER(vf_atom *p, int kind, int mo)
{
    vf_atom v;
    if (vfh_role == INIT) return 0;
    PROVE(p == PH || p == PT || p == CH || p == CT);
    vfh_check_slots();
    if (!vfh_quiet) {
        if (++vfh_hooks > 6) {
            if (kind == AT_LOAD && vfh_claimed && !vfh_published && *p != vfh_mh)
                PROVE(vfh_step(3) || vfh_step(6));      /* waits only for those before it */
        } else
            while (vfh_moves > 0) {
                int w = SPLIT(0, 6);
                if (w == 0) break;
                if (!vfh_step(w)) break;
                vfh_moves--;
            }
    }
    v = *p;
    if (kind == AT_STORE) return v;
    if (kind == AT_LOAD && !vfh_quiet) {
        if (p == CT && vfh_role == ENQ && v != vfh_min_ct && COIN()) v = vfh_min_ct;
        if (p == PT && vfh_role == DEQ && v != vfh_min_pt && COIN()) v = vfh_min_pt;
    }
    if (p == CT && !vfh_claimed && vfh_role == ENQ && (long)((vf_atom)M_ + v - *PH) < (long)vfh_want) vfh_seen_no = 1;
    if (p == PT && !vfh_claimed && vfh_role == DEQ && (long)(v - *CH) < (long)vfh_want) vfh_seen_no = 1;
    if (p == PT) { vfh_rlx_pt = vfh_min_pt = v; if (VF_ACQ(mo)) { vfh_acq_pt = v; if (vfh_role == DEQ) vfh_show(v); } }
    if (p == CT) { vfh_rlx_ct = vfh_min_ct = v; if (VF_ACQ(mo)) vfh_acq_ct = v; }
    if (p == PH) { vfh_rlx_ph = vfh_clm_ct; if (VF_ACQ(mo) && LT(vfh_min_ct, vfh_clm_ct)) vfh_min_ct = vfh_clm_ct; }
    if (p == CH) { vfh_rlx_ch = vfh_clm_pt; if (VF_ACQ(mo) && LT(vfh_min_pt, vfh_clm_pt)) vfh_min_pt = vfh_clm_pt; }
    return v;
}

static void
VF_WROTE(vf_atom *p, int kind, vf_atom old, vf_atom v, int mo)
{
    if (vfh_role == INIT) return;
    if (p == PH || p == CH) {
        PROVE(!vfh_claimed && vfh_role == (p == PH ? ENQ : DEQ));
        PROVE(v - old <= vfh_want);
        if (vfh_role == ENQ) {
            PROVE(v - vfh_acq_ct <= (vf_atom)M_ && v - *CT <= (vf_atom)M_);
            vfh_clm_ct = vfh_acq_ct;
        } else {
            PROVE(!LT(vfh_acq_pt, v));
            vfh_clm_pt = vfh_acq_pt;
        }
        PROVE(!vfh_multi || v == old || VF_REL(mo));        /* who sees the claim sees what it was based on */
        vfh_claimed = 1;
        vfh_mh = old; vfh_mn = v;
        return;
    }
    PROVE(vfh_role == (p == PT ? ENQ : DEQ));
    PROVE(vfh_claimed && !vfh_published && old == vfh_mh && v == vfh_mn);
    PROVE(!vfh_multi || (p == PT ? vfh_acq_pt : vfh_acq_ct) == vfh_mh);     /* passes on what those before it did */
    PROVE(VF_REL(mo) || vfh_relfence);
    vfh_published = 1;
    for (vf_atom t = vfh_mh; t != vfh_mn; t++) {
        int i = IDX(t);
        if (vfh_role == ENQ) {
            PROVE(D[i] == vfh_mine[t - vfh_mh]);
            PROVE(VF_REL(mo) || SF[i] == D[i]);
            T[i] = D[i];
        } else D[i] = S[i] = POISON;
    }
}

static int VF_SPURIOUS(void) { if (vfh_spur && COIN()) { vfh_spur--; return 1; } return 0; }
static void
VF_FENCE(int mo)
{
    vfh_check_slots();
    if (VF_ACQ(mo)) {
        vfh_acq_pt = vfh_rlx_pt; vfh_acq_ct = vfh_rlx_ct;
        if (vfh_role == DEQ) vfh_show(vfh_acq_pt);
        if (LT(vfh_min_ct, vfh_rlx_ph)) vfh_min_ct = vfh_rlx_ph;
        if (LT(vfh_min_pt, vfh_rlx_ch)) vfh_min_pt = vfh_rlx_ch;
    }
    if (VF_REL(mo)) { vfh_relfence = 1; for (int i = 0; i < N; i++) SF[i] = D[i]; }
}

static void
vfh_begin(int r, unsigned n)
{
    vfh_role = r; vfh_claimed = vfh_published = vfh_seen_no = vfh_hooks = vfh_relfence = 0;
    vfh_want = n; vfh_mh = vfh_mn = 0;
}

/* how: 0 single, 1 bulk, 2 burst; who: 0 as the ring is configured, 1 single side, 2 multi */
static int
vfh_enq(unsigned n, int how, int who)
{
    int r;
    vfh_begin(ENQ, n);
    vfh_multi = who ? who == 2 : !R->sp_enq;
    if (how == 0)
        r = who == 0 ? rte_ring_enqueue(R, vfh_mine[0]) : who == 1 ? rte_ring_sp_enqueue(R, vfh_mine[0]) : rte_ring_mp_enqueue(R, vfh_mine[0]);
    else if (how == 1)
        r = who == 0 ? rte_ring_enqueue_bulk(R, vfh_mine, n) : who == 1 ? rte_ring_sp_enqueue_bulk(R, vfh_mine, n) : rte_ring_mp_enqueue_bulk(R, vfh_mine, n);
    else
        r = who == 0 ? rte_ring_enqueue_burst(R, vfh_mine, n) : who == 1 ? rte_ring_sp_enqueue_burst(R, vfh_mine, n) : rte_ring_mp_enqueue_burst(R, vfh_mine, n);
    vfh_check_slots();
    PROVE(vfh_claimed == vfh_published);
    if (how < 2) {
        if (r < 0) { PROVE(!vfh_claimed && vfh_seen_no); return -1; }
        PROVE(vfh_claimed && vfh_mn - vfh_mh == n);
        return n;
    }
    PROVE(r >= 0 && (unsigned)r <= n && vfh_mn - vfh_mh == (vf_atom)r && ((unsigned)r == n || vfh_seen_no));
    return r;
}

static int
vfh_deq(unsigned n, int how, int who)
{
    int r;
    void *out[MAXN + 1];
    for (int i = 0; i <= MAXN; i++) out[i] = (void *)23;
    vfh_begin(DEQ, n);
    vfh_multi = who ? who == 2 : !R->sc_deq;
    if (how == 0)
        r = who == 0 ? rte_ring_dequeue(R, out) : who == 1 ? rte_ring_sc_dequeue(R, out) : rte_ring_mc_dequeue(R, out);
    else if (how == 1)
        r = who == 0 ? rte_ring_dequeue_bulk(R, out, n) : who == 1 ? rte_ring_sc_dequeue_bulk(R, out, n) : rte_ring_mc_dequeue_bulk(R, out, n);
    else
        r = who == 0 ? rte_ring_dequeue_burst(R, out, n) : who == 1 ? rte_ring_sc_dequeue_burst(R, out, n) : rte_ring_mc_dequeue_burst(R, out, n);
    vfh_check_slots();
    PROVE(vfh_claimed == vfh_published);
    if (how < 2) {
        if (r < 0) PROVE(!vfh_claimed && vfh_seen_no);
        else       PROVE(vfh_claimed && vfh_mn - vfh_mh == n);
    } else PROVE(r >= 0 && (unsigned)r <= n && vfh_mn - vfh_mh == (vf_atom)r && ((unsigned)r == n || vfh_seen_no));
    for (unsigned i = 0; i <= MAXN; i++)
        PROVE(out[i] == (i < vfh_mn - vfh_mh ? vfh_val(vfh_mh + i) : (void *)23));
    return how < 2 ? (r < 0 ? -1 : (int)n) : r;
}

static void
vfh_put(unsigned n, int how, int who, int r)
{
    for (unsigned i = 0; i < n; i++) vfh_mine[i] = vfh_val(*PH + i);
    PROVE(vfh_enq(n, how, who) == r);
}

static void
vfh_setup(unsigned n, unsigned flags, vf_atom b)
{
    vfh_role = INIT;
    R = rte_ring_create(n, flags);
    N = R->size; M_ = R->mask; vfh_quiet = 1; vfh_moves = 0; vfh_npe = vfh_npd = 0; vfh_spur = 0;
    PROVE(N >= (int)n && (N & M_) == 0 && M_ == N - 1 && (N / 2 < (int)n));
    PROVE(!!R->sp_enq == !!(flags & RING_F_SP_ENQ) && !!R->sc_deq == !!(flags & RING_F_SC_DEQ));
    PH = (vf_atom *)&R->prod.head; PT = (vf_atom *)&R->prod.tail;
    CH = (vf_atom *)&R->cons.head; CT = (vf_atom *)&R->cons.tail;
    D = (void **)R->ring;
    PROVE(*PH == 0 && *PT == 0 && *CH == 0 && *CT == 0);
    *PH = *PT = *CH = *CT = vfh_acq_pt = vfh_acq_ct = vfh_min_pt = vfh_min_ct = vfh_clm_pt = vfh_clm_ct = vfh_base = b;
    for (int i = 0; i < N; i++) D[i] = T[i] = S[i] = POISON;
}

static int vfh_k_;
#define MINE (vfh_k_++ % VF_NSHARD == VF_SHARD)

static void
vfh_concurrent(int op, int n, int how, int rot, int fill, int pre)
{
    vfh_setup(4, 0, rot == 0 ? 0xfffffffcUL : 4);
    if (rot) { vfh_put(rot, 2, 2, rot); PROVE(vfh_deq(rot, 2, 2) == rot); }
    if (fill) vfh_put(fill, 2, 2, fill);
    vfh_role = op & 1; vfh_multi = op >> 1;
    for (; pre; pre /= 7) vfh_step(pre % 7);
    vfh_quiet = 0; vfh_moves = MOVES; vfh_spur = 1;
    for (int i = 0; i < n; i++) vfh_mine[i] = (void *)(unsigned long)(0x77000 + 16 * i);
    if (vfh_role == ENQ) {
        int r = vfh_enq(n, how, 1 + vfh_multi);
        for (int i = 0; i < r; i++) {
            PROVE(T[IDX(vfh_mh + i)] == vfh_mine[i]);
            T[IDX(vfh_mh + i)] = vfh_val(vfh_mh + i);
        }
    } else vfh_deq(n, how, 1 + vfh_multi);
    VF_reach();
    vfh_role = LOOK;
    while (vfh_step(3) || vfh_step(6)) ;
    PROVE(vfh_npe == 0 && vfh_npd == 0);
    PROVE(*PH == *PT && *CH == *CT);
    vfh_quiet = 1;
    PROVE(rte_ring_count(R) == *PT - *CT && rte_ring_free_count(R) == M_ - (*PT - *CT));
    vf_atom left = *PT - *CT;
    if (left) PROVE(vfh_deq(left, 1, 2) == (int)left);
    rte_ring_destroy(R);
    VF_END;
}

/* one thread: counts and contents at every place */
static void
vfh_sequential(int n, unsigned flags, int rot, int fill, int k)
{
    int free;
    vfh_setup(n, flags, 0xfffffff8UL);
    free = M_ - fill;
    for (int i = 0; i < rot; i++) { vfh_put(1, 0, 0, 1); PROVE(vfh_deq(1, 0, 0) == 1); }
    vfh_put(fill, 1, 0, fill);
    PROVE(rte_ring_count(R) == (unsigned)fill && rte_ring_free_count(R) == (unsigned)free);
    PROVE(!!rte_ring_full(R) == (free == 0) && !!rte_ring_empty(R) == (fill == 0));
    vfh_put(k, 1, 0, k <= free ? k : -1);
    if (k > free) vfh_put(k, 2, 0, free);
    fill += k <= free ? k : free;
    PROVE(rte_ring_count(R) == (unsigned)fill);
    PROVE(vfh_deq(k, 1, 0) == (k <= fill ? k : -1));
    if (k <= fill) fill -= k;
    PROVE(vfh_deq(k, 2, 0) == (k <= fill ? k : fill));
    fill -= k <= fill ? k : fill;
    PROVE(rte_ring_count(R) == (unsigned)fill);
    VF_reach();
    rte_ring_destroy(R);
    VF_END;
}

/* memory of the caller */
static void
vfh_from(unsigned n, int spare)
{
    size_t need = rte_ring_size(n), sz = need + spare;
    PROVE(need >= sizeof(rte_ring) + n * sizeof(void *) && need % 64 == 0);
    char *m = malloc(sz);
    vfh_role = INIT;
    R = rte_ring_create_from(n, 0, m, &sz);
    if (spare < 0) PROVE(R == 0 && sz == need + spare);
    else {
        PROVE((char *)R == m && sz == (size_t)spare && R->size == n && R->mask == n - 1);
        R->ring[n - 1] = 0;
        PROVE((char *)&R->ring[n] <= m + need);
        VF_reach();
    }
    free(m);
    VF_END;
}

static void
vfh_scene(int what, int a, int b, int c, int d, int e, int f)
{
    if (!MINE) return;
    if (what == 0) vfh_concurrent(a, b, c, d, e, f);
    else if (what == 1) vfh_sequential(a, b, c, d, e);
    else vfh_from(a, b);
    VF_END;
}

int
main(void)
{
    int c = 0;
    for (int op = 0; op < 4; op++)
        for (int n = 1; n <= 2; n++)
            for (int how = 1; how <= 2; how++)
                for (int fill = 0; fill <= 3; fill++)
                    for (int pre = 0; pre < 49; pre += (pre < 7 ? 1 : STEP))
                        if (c++ % CSTEP == 0)
                            vfh_scene(0, op, n, how, (fill * 3) % 4, fill, pre);
    for (int k = 0; k <= 8; k++)
        for (int rot = 0; rot < 8; rot++)
            for (int fill = 0; fill < 8; fill++)
                vfh_scene(1, k & 1 ? 7 : 8, (rot + k) % 4, rot, fill, k, 0);
    for (int n = 2; n <= 4; n *= 2)
        for (int spare = -1; spare <= 1; spare++)
            vfh_scene(2, n, spare, 0, 0, 0, 0);
    return 0;
}
