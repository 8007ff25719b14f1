/* inc/fast/mpmc_bounded_queue.h: any number of producers and consumers.
 *
 * Thread-modular: one operation is analysed while any number of other
 * threads, running the same four operations, take up to MOVES steps (claim
 * a ticket, complete a claimed ticket) before its atomic accesses, from
 * states reached by any history of up to PRE such steps. A slot's data is
 * POISON unless this thread owns the slot: it claimed the slot's ticket and
 * saw, with an acquire load, the turn that ticket waits for. */
#include "vf.h"
#include "vf_atomic.h"
static int vf_memalign(void **p, size_t al, size_t n);
#define posix_memalign vf_memalign
#include "fast/mpmc_bounded_queue.h"

#ifndef MOVES
#define MOVES 2
#endif
#ifndef STEP
#define STEP 1
#endif
typedef struct { int a, b; } el;
MPMC_QUEUE_TYPE(mq, el);

enum { ENQ, DEQ, LOOK, RESET };
#define MAXN 4
static mq *Q;
static int vfh_role, N, vfh_moves, vfh_claimed, vfh_published, vfh_seen_no, vfh_wrong, vfh_hooks, vfh_quiet;
static vf_atom vfh_mt;                      /* the ticket this thread has claimed */
static vf_atom *HD, *TL;
static el T[MAXN], S[MAXN], SF[MAXN];
static vf_atom vfh_obs[MAXN], vfh_rlx[MAXN];
static int vfh_relfence;
static vf_atom vfh_pe[4], vfh_pd[4];            /* tickets others have claimed but not completed */
static int vfh_npe, vfh_npd;
static el vfh_cur;
static vf_atom vfh_self;                    /* ticket under which SELF was put in */
#define NONE    (~0UL)

static el vfh_val(vf_atom i) { el e = { (int)(i * 7 + 5) & 0xffffff, (int)(~i & 0xffffff) }; return e; }
static int vfh_eq(el x, el y) { return x.a == y.a && x.b == y.b; }
static const el POISON = { -77777, -77777 }, SELF = { -5, -6 };
#define IDX(t)  ((int)((t) % N))
#define TURN_(s) (*(vf_atom *)&Q->slot[s].turn)

static int
vf_memalign(void **p, size_t al, size_t n)
{
    char *x = malloc(n);
    PROVE(al >= 64 && (al & (al - 1)) == 0);
    *p = x;
    return 0;
}

static void
vfh_check_slots(void)
{
    for (int i = 0; i < N; i++) {
        el d = Q->slot[i].data;
        if (vfh_eq(d, S[i])) continue;
        if (vfh_role == RESET) { S[i] = d; continue; }
        /* written: only by a producer that owns it */
        PROVE(vfh_role == ENQ && vfh_claimed && !vfh_published && IDX(vfh_mt) == i && vfh_obs[i] == 2 * (vfh_mt / N));
        S[i] = d;
    }
}

static void vfh_hide(int s) { Q->slot[s].data = S[s] = POISON; vfh_obs[s] = vfh_rlx[s] = NONE; }

/* one step of another thread; 0 if it is not possible */
static int
vfh_step(int what)
{
    vf_atom t;
    int s;
    switch (what) {
    case 1: case 2:                             /* 1: only if there is room; 2: and then wait */
        s = IDX(*HD);
        if (vfh_npe >= 3 || (what == 1 && TURN_(s) != 2 * (*HD / N))) return 0;
        vfh_pe[vfh_npe++] = (*HD)++;
        return 1;
    case 3: case 4:
        s = IDX(*TL);
        if (vfh_npd >= 3 || (what == 3 && TURN_(s) != 2 * (*TL / N) + 1)) return 0;
        vfh_pd[vfh_npd++] = (*TL)++;
        return 1;
    case 5: case 6:
        for (int i = 0; i < vfh_npe; i++) {
            if (what == 6) i = vfh_npe - 1;
            t = vfh_pe[i]; s = IDX(t);
            if (TURN_(s) != 2 * (t / N)) continue;
            T[s] = vfh_val(t);
            vfh_hide(s);
            TURN_(s)++;
            for (vfh_npe--; i < vfh_npe; i++) vfh_pe[i] = vfh_pe[i + 1];
            return 1;
        }
        return 0;
    case 7: case 8:
        for (int i = 0; i < vfh_npd; i++) {
            if (what == 8) i = vfh_npd - 1;
            t = vfh_pd[i]; s = IDX(t);
            if (TURN_(s) != 2 * (t / N) + 1) continue;
            vfh_hide(s);
            TURN_(s)++;
            for (vfh_npd--; i < vfh_npd; i++) vfh_pd[i] = vfh_pd[i + 1];
            return 1;
        }
        return 0;
    }
    return 0;
}

/* the others get on with it */
static int vfh_help(void) { return vfh_step(7) || vfh_step(5) || (vfh_role == ENQ ? vfh_step(3) : vfh_step(1)); }

static vf_atom
VF_ENTER(vf_atom *p, int kind, int mo)
{
    vfh_check_slots();
    if (!vfh_quiet) {
        if (++vfh_hooks > 5 && kind == AT_LOAD && vfh_claimed && !vfh_published && TURN_(IDX(vfh_mt)) != 2 * (vfh_mt / N) + (vfh_role == DEQ))
            PROVE(vfh_help());                      /* waits for what will come */
        else
            while (vfh_moves > 0) {
                int w = SPLIT(0, 8);
                if (w == 0) break;
                if (!vfh_step(w)) break;
                vfh_moves--;
            }
    }
    if (!vfh_claimed) {
        if (TURN_(IDX(*HD)) != 2 * (*HD / N) && vfh_role == ENQ) vfh_seen_no = 1;
        if (TURN_(IDX(*TL)) != 2 * (*TL / N) + 1 && vfh_role == DEQ) vfh_seen_no = 1;
    }
    if (p != HD && p != TL) {
        int s = -1;
        for (int i = 0; i < N; i++) if (p == &TURN_(i)) s = i;
        PROVE(s >= 0);
        if (kind != AT_STORE) {
            vfh_rlx[s] = *p;
            if (VF_ACQ(mo)) {
                vfh_obs[s] = *p;
                if (vfh_obs[s] & 1) Q->slot[s].data = S[s] = T[s];
            }
        }
    }
    return *p;
}

static void
VF_WROTE(vf_atom *p, int kind, vf_atom old, vf_atom v, int mo)
{
    if (vfh_role == RESET) return;
    PROVE(v == old + 1 && vfh_role != LOOK);
    if (p == HD || p == TL) {
        PROVE(!vfh_claimed && vfh_role == (p == HD ? ENQ : DEQ));
        vfh_claimed = 1;
        vfh_mt = old;
        return;
    }
    int s = IDX(vfh_mt);
    PROVE(vfh_claimed && !vfh_published && p == &TURN_(s));
    PROVE(old == 2 * (vfh_mt / N) + (vfh_role == DEQ));
    PROVE(vfh_obs[s] == old);
    PROVE(VF_REL(mo) || (vfh_relfence && vfh_eq(SF[s], Q->slot[s].data)));
    vfh_published = 1;
    if (vfh_role == ENQ) {
        PROVE(vfh_eq(Q->slot[s].data, vfh_cur));
        T[s] = vfh_cur;
    }
    vfh_hide(s);
}

static int VF_SPURIOUS(void) { return COIN(); }
static void
VF_FENCE(int mo)
{
    vfh_check_slots();
    if (VF_ACQ(mo))
        for (int s = 0; s < N; s++) {
            vfh_obs[s] = vfh_rlx[s];
            if (vfh_obs[s] != NONE && (vfh_obs[s] & 1)) Q->slot[s].data = S[s] = T[s];
        }
    if (VF_REL(mo)) { vfh_relfence = 1; for (int i = 0; i < N; i++) SF[i] = Q->slot[i].data; }
}

static void
vfh_begin(int r, el e)
{
    vfh_role = r; vfh_claimed = vfh_published = vfh_seen_no = vfh_hooks = vfh_relfence = 0;
    vfh_mt = NONE;
    vfh_cur = e;
}

static int
vfh_enq(el e)
{
    vfh_begin(ENQ, e);
    int r = MPMC_QUEUE_ENQ(Q, e);
    vfh_check_slots();
    PROVE(vfh_claimed == !!r && vfh_published == !!r && (r || vfh_seen_no));
    return !!r;
}

static int
vfh_deq(el *e)
{
    vfh_begin(DEQ, POISON);
    *e = POISON;
    int r = MPMC_QUEUE_DEQ(Q, *e);
    vfh_check_slots();
    PROVE(vfh_claimed == !!r && vfh_published == !!r && (r || vfh_seen_no));
    if (r) PROVE(vfh_eq(*e, vfh_mt == vfh_self ? SELF : vfh_val(vfh_mt)));
    else   PROVE(vfh_eq(*e, POISON));
    return !!r;
}

static void
vfh_setup(int n, vf_atom base)
{
    Q = MPMC_QUEUE_NEW(mq, n);
    N = n; vfh_quiet = 1; vfh_moves = 0; vfh_npe = vfh_npd = 0; vfh_self = NONE;
    HD = (vf_atom *)&Q->q.head; TL = (vf_atom *)&Q->q.tail;
    PROVE(*HD == 0 && *TL == 0 && MPMC_QUEUE_CAP(Q) == (size_t)n);
    for (int i = 0; i < n; i++) {
        PROVE(TURN_(i) == 0);
        TURN_(i) = 2 * ((base + i) / n);        /* base is a multiple of n */
        T[i] = POISON;
        vfh_hide(i);
    }
    *HD = *TL = base;
}

static int vfh_k_;
#define MINE (vfh_k_++ % VF_NSHARD == VF_SHARD)

static void
vfh_concurrent(int op, int n, int rot, int fill, int pre)
{
    el e;
    vfh_setup(n, rot == 0 ? 0x100000000UL - n : (vf_atom)n * 4);
    for (int i = 0; i < rot + fill; i++) {
        PROVE(vfh_enq(vfh_val(*HD)));
        if (i < rot) PROVE(vfh_deq(&e));
    }
    PROVE(MPMC_QUEUE_SIZE(Q) == (size_t)fill);
    PROVE(!!MPMC_QUEUE_FULL_P(Q) == (fill == n) && !!MPMC_QUEUE_EMPTY_P(Q) == (fill == 0));
    for (; pre; pre /= 9) vfh_step(pre % 9);
    vfh_quiet = 0; vfh_moves = MOVES;
    switch (op) {
    case 0:
        vfh_enq(SELF);
        break;
    case 1:
        vfh_deq(&e);
        break;
    case 2:
        vfh_begin(ENQ, SELF);
        MPMC_QUEUE_ENQ_WAIT(Q, SELF);
        vfh_check_slots();
        PROVE(vfh_claimed && vfh_published);
        break;
    case 3:
        vfh_begin(DEQ, POISON);
        e = POISON;
        MPMC_QUEUE_DEQ_WAIT(Q, e);
        vfh_check_slots();
        PROVE(vfh_claimed && vfh_published && vfh_eq(e, vfh_val(vfh_mt)));
        break;
    }
    VF_reach();
    if (vfh_published && vfh_role == ENQ) vfh_self = vfh_mt;
    /* the rest finish; what is left comes out in order of its tickets */
    vfh_role = LOOK; vfh_claimed = 1;
    while (vfh_step(7) || vfh_step(5)) ;
    vfh_quiet = 1;
    PROVE(MPMC_QUEUE_SIZE(Q) <= (size_t)n);
    if (vfh_npe == 0 && vfh_npd == 0) {
        vf_atom k = *TL, h = *HD;
        PROVE(MPMC_QUEUE_SIZE(Q) == h - k);
        for (; k < h; k++) {
            PROVE(vfh_deq(&e));
            PROVE(vfh_mt == k);
        }
        PROVE(!vfh_deq(&e));
    }
    MPMC_QUEUE_DEL(Q);
    PROVE(Q == 0);
    VF_END;
}

/* all histories of one thread */
static void
vfh_history(int n, int len, unsigned code)
{
    el e;
    unsigned in = 0, out = 0;
    vfh_setup(n, 0);
    for (int i = 0; i < len; i++, code /= 3) {
        if (code % 3 == 0) {
            int r = vfh_enq(vfh_val(*HD));
            PROVE(r == (in - out < (unsigned)n));
            in += r;
        } else if (code % 3 == 1) {
            int r = vfh_deq(&e);
            PROVE(r == (in != out));
            if (r) PROVE(vfh_mt == out);
            out += r;
        } else {
            vfh_role = RESET;
            MPMC_QUEUE_RESET(Q);
            PROVE(*HD == 0 && *TL == 0);
            for (int k = 0; k < n; k++) {
                PROVE(TURN_(k) == 0);
                vfh_hide(k);
            }
            in = out = 0;
        }
        PROVE(MPMC_QUEUE_SIZE(Q) == in - out && *HD == in && *TL == out);
    }
    VF_reach();
    MPMC_QUEUE_DEL(Q);
    VF_END;
}

static void
vfh_scene(int what, int n, int a, int b, int c)
{
    if (!MINE) return;
    if (what < 4) vfh_concurrent(what, n, a, b, c);
    else vfh_history(n, a, b);
    VF_END;
}

int
main(void)
{
    for (int n = 1; n <= 2; n *= 2)
        for (int rot = 0; rot <= n; rot++)
            for (int fill = 0; fill <= n; fill++)
                for (int pre = 0; pre < 9 * 9; pre += (pre < 9 ? 1 : STEP))
                    for (int op = 0; op < 4; op++)
                        vfh_scene(op, n, rot, fill, pre);
    for (int op = 0; op < 4; op++)
        for (int rot = 0; rot <= 4; rot += S4)
            for (int fill = 0; fill <= 4; fill += rot ? S4 : 1)
                vfh_scene(op, 4, rot, fill, 0);
    for (int n = 1; n <= 4; n *= 2)
        for (int c = 0; c < vf_pow(3, HLEN); c++)
            vfh_scene(4, n, HLEN, c, 0);
    return 0;
}
