/* inc/fast/spsc_bounded_queue.h: a queue of one producer and one consumer.
 *
 * Thread-modular: one operation of one side is analysed while the other
 * side, whose only effect is to move its own index, runs whole operations
 * before any atomic access (up to MOVES of them in all). A slot the other
 * side owns holds POISON; an element becomes visible to the consumer only
 * by an acquire load of the write index, and may be overwritten by the
 * producer only after an acquire load of the read index. */
#include "vf.h"
#include "vf_atomic.h"
#include "fast/spsc_bounded_queue.h"

#ifndef MAXN
#define MAXN 4
#endif
#ifndef MOVES
#define MOVES 3
#endif
typedef struct { int a, b; } el;
SPSCQ_DYN_TYPEDEF(dynq, el);
SPSCQ_TYPEDEF(fixq, el, 3);

enum { ANY, PROD, CONS, LOOK };
static int vfh_role, N, vfh_moves, vfh_pubs, vfh_seen_full, vfh_seen_empty, vfh_relfence;
static unsigned vfh_n_in, vfh_n_out;            /* elements put in and taken out so far */
static vf_atom *RD, *WR;
static el *M;                           /* the slots */
static el T[8], S[8], SF[8];            /* true contents; what the slots may hold; at the last release fence */
static vf_atom vfh_acq_wr, vfh_rlx_wr;
static unsigned vfh_acq_out, vfh_rlx_out;       /* elements known to have been taken out */
static el vfh_cur;

static el vfh_val(unsigned i) { el e = { (int)(i * 7 + 5), (int)~i }; return e; }
static int vfh_eq(el x, el y) { return x.a == y.a && x.b == y.b; }
static const el POISON = { -77777, -77777 };

static int
vfh_inq(vf_atom i, vf_atom rd, vf_atom wr)
{
    return rd <= wr ? (i >= rd && i < wr) : (i >= rd || i < wr);
}

static void
vfh_check_slots(void)
{
    for (int i = 0; i < N; i++) {
        if (vfh_eq(M[i], S[i])) continue;
        PROVE(vfh_role == ANY || vfh_role == PROD);             /* only a producer writes */
        PROVE(!vfh_inq(i, *RD, *WR));                       /* and only where the slot is free */
        PROVE(vfh_role == ANY || (unsigned)i != vfh_n_in % N || vfh_n_in - vfh_acq_out < (unsigned)N);  /* and it knows that */
        S[i] = M[i];
    }
}

static void
vfh_show(vf_atom upto)
{
    for (int i = 0; i < N; i++)
        if (vfh_inq(i, *RD, upto)) M[i] = S[i] = T[i];
}

static void
vfh_other_side(void)
{
    if (vfh_role == ANY) return;
    while (vfh_moves > 0 && COIN()) {
        vfh_moves--;
        if (vfh_role == PROD || (vfh_role == LOOK && COIN())) {
            if (*RD == *WR) break;
            *RD = (*RD + 1) % N;
            vfh_n_out++;
        } else {
            if ((*WR + 1) % N == *RD) break;
            T[*WR] = vfh_val(vfh_n_in++);
            *WR = (*WR + 1) % N;
        }
    }
}

static vf_atom
VF_ENTER(vf_atom *p, int kind, int mo)
{
    PROVE(p == RD || p == WR);
    vfh_check_slots();
    vfh_other_side();
    if ((*WR + 1) % N == *RD) vfh_seen_full = 1;
    if (*WR == *RD) vfh_seen_empty = 1;
    if (kind != AT_STORE) {
        if (p == WR) vfh_rlx_wr = *p;
        else vfh_rlx_out = vfh_n_out;
        if (VF_ACQ(mo)) {
            if (p == WR) { vfh_acq_wr = *p; vfh_show(vfh_acq_wr); }
            else vfh_acq_out = vfh_n_out;
        }
    }
    return *p;
}

static void
VF_WROTE(vf_atom *p, int kind, vf_atom old, vf_atom v, int mo)
{
    PROVE(vfh_role != LOOK && v == (old + 1) % N);
    vfh_pubs++;
    if (p == WR) {
        PROVE(vfh_role != CONS);
        PROVE(vfh_eq(M[old], vfh_cur));                 /* the element is in place before it is announced */
        PROVE(VF_REL(mo) || (vfh_relfence && vfh_eq(SF[old], vfh_cur)));
        PROVE(vfh_role == ANY || vfh_n_in - vfh_acq_out < (unsigned)N);
        T[old] = M[old];
        vfh_n_in++;
    } else {
        PROVE(vfh_role != PROD);
        PROVE(VF_REL(mo) || vfh_relfence);
        PROVE(vfh_inq(old, old, vfh_acq_wr));           /* an element that was seen to be there */
        vfh_n_out++;
        if (vfh_role == CONS) M[old] = S[old] = POISON;     /* the producer's from now on */
    }
}

static int VF_SPURIOUS(void) { return COIN(); }
static void
VF_FENCE(int mo)
{
    vfh_check_slots();
    if (VF_ACQ(mo)) { vfh_acq_out = vfh_rlx_out; vfh_acq_wr = vfh_rlx_wr; vfh_show(vfh_acq_wr); }
    if (VF_REL(mo)) { vfh_relfence = 1; for (int i = 0; i < N; i++) SF[i] = M[i]; }
}

static void
vfh_setup(dynq *q, int n)
{
    N = n; vfh_role = ANY; vfh_moves = 0; vfh_pubs = 0; vfh_n_in = vfh_n_out = 0; vfh_relfence = 0;
    SPSCQ_DYN_INIT(q, n);
    RD = (vf_atom *)&q->q.rd; WR = (vf_atom *)&q->q.wr;
    M = q->elem;
    PROVE(*RD == 0 && *WR == 0 && q->q.sz == (uint32_t)n);
    vfh_acq_wr = vfh_rlx_wr = vfh_acq_out = vfh_rlx_out = 0;
    for (int i = 0; i < n; i++) S[i] = T[i] = M[i];
}

/* rotate by rot, fill with k */
static void
vfh_state(dynq *q, int rot, int k)
{
    el e;
    for (int i = 0; i < rot + k; i++) {
        vfh_cur = vfh_val(vfh_n_in);
        PROVE(SPSCQ_ENQ(q, vfh_cur));
        if (i < rot) {
            unsigned o = vfh_n_out;
            PROVE(SPSCQ_DEQ(q, e) && vfh_eq(e, vfh_val(o)));
        }
    }
    vfh_pubs = 0;
    vfh_check_slots();
}

static int vfh_k_;
#define TURN (vfh_k_++ % VF_NSHARD == VF_SHARD)

static void
vfh_producer(int n, int rot, int k, int ops)
{
    dynq q;
    vfh_setup(&q, n);
    vfh_state(&q, rot, k);
    /* the consumer has been at work unobserved; what it owns must not be touched */
    for (int i = 0; i < n; i++)
        if (vfh_inq(i, *RD, *WR)) S[i] = M[i];
    vfh_role = PROD; vfh_moves = MOVES - ops; vfh_seen_full = vfh_seen_empty = 0;
    for (int j = 0; j < ops; j++) {
        vfh_pubs = 0; vfh_seen_full = 0; vfh_relfence = 0;
        vfh_cur = vfh_val(vfh_n_in);
        int r = SPSCQ_ENQ(&q, vfh_cur);
        vfh_check_slots();
        PROVE(vfh_pubs == !!r);
        PROVE(r || vfh_seen_full);
    }
    VF_reach();
    vfh_role = ANY; vfh_moves = 0;
    /* everything comes out in order */
    while (vfh_n_out < vfh_n_in) {
        el e = POISON;
        unsigned o = vfh_n_out;
        PROVE(SPSCQ_DEQ(&q, e));
        PROVE(vfh_eq(e, vfh_val(o)));
    }
    SPSCQ_DYN_FINI(&q);
    PROVE(q.elem == 0);
    VF_END;
}

static void
vfh_consumer(int n, int rot, int k, int ops)
{
    dynq q;
    el e;
    vfh_setup(&q, n);
    vfh_state(&q, rot, k);
    vfh_role = CONS; vfh_moves = MOVES - ops;
    for (int i = 0; i < n; i++)
        if (!vfh_inq(i, *RD, vfh_acq_wr)) M[i] = S[i] = POISON;
    for (int j = 0; j < ops; j++) {
        vfh_pubs = 0; vfh_seen_empty = 0; vfh_relfence = 0;
        unsigned o = vfh_n_out;
        e = POISON;
        int r = SPSCQ_DEQ(&q, e);
        vfh_check_slots();
        PROVE(vfh_pubs == !!r);
        if (r) PROVE(vfh_eq(e, vfh_val(o)));
        else   PROVE(vfh_seen_empty && vfh_eq(e, POISON));
    }
    VF_reach();
    SPSCQ_DYN_FINI(&q);
    VF_END;
}

/* predicates and size: exact when nothing moves, in range otherwise */
static void
vfh_looker(int n, int rot, int k)
{
    dynq q;
    vfh_setup(&q, n);
    vfh_state(&q, rot, k);
    PROVE(SPSCQ_SIZE(&q) == (uint32_t)k);
    PROVE(!!SPSCQ_FULL_P(&q) == (k == n - 1));
    PROVE(!!SPSCQ_EMPTY_P(&q) == (k == 0));
    vfh_role = LOOK; vfh_moves = MOVES;
    PROVE(SPSCQ_SIZE(&q) < (uint32_t)n);
    vfh_moves = MOVES; vfh_seen_full = 0;
    if (SPSCQ_FULL_P(&q)) PROVE(vfh_seen_full || vfh_moves < MOVES);
    VF_reach();
    vfh_role = ANY; vfh_moves = 0;
    SPSCQ_RESET(&q);
    PROVE(SPSCQ_SIZE(&q) == 0 && SPSCQ_EMPTY_P(&q));
    SPSCQ_DYN_FINI(&q);
    VF_END;
}

/* every sequence of ops on one thread, against a FIFO */
static void
vfh_history(int n, int len, unsigned code)
{
    dynq q;
    vfh_setup(&q, n);
    for (int i = 0; i < len; i++, code >>= 1) {
        if (code & 1) {
            vfh_cur = vfh_val(vfh_n_in);
            int full = vfh_n_in - vfh_n_out == (unsigned)n - 1, r = SPSCQ_ENQ(&q, vfh_cur);
            PROVE(!!r == !full);
        } else {
            el e = POISON;
            unsigned o = vfh_n_out;
            int empty = vfh_n_in == vfh_n_out, r = SPSCQ_DEQ(&q, e);
            PROVE(!!r == !empty && vfh_eq(e, empty ? POISON : vfh_val(o)));
        }
        PROVE(SPSCQ_SIZE(&q) == vfh_n_in - vfh_n_out);
    }
    VF_reach();
    SPSCQ_DYN_FINI(&q);
    VF_END;
}

/* a queue with its slots in place */
static void
vfh_fixed(void)
{
    static fixq q;
    el e;
    N = 3; vfh_role = ANY; vfh_n_in = vfh_n_out = 0;
    RD = (vf_atom *)&q.q.rd; WR = (vf_atom *)&q.q.wr; M = q.elem;
    vfh_acq_wr = vfh_acq_out = 0;
    SPSCQ_INIT(&q, 3);
    for (int i = 0; i < 3; i++) S[i] = T[i] = M[i];
    for (int i = 0; i < 5; i++) {
        while (1) {
            vfh_cur = vfh_val(vfh_n_in);
            if (!SPSCQ_ENQ(&q, vfh_cur)) break;
        }
        PROVE(vfh_n_in - vfh_n_out == 2);
        unsigned o = vfh_n_out;
        PROVE(SPSCQ_DEQ(&q, e) && vfh_eq(e, vfh_val(o)));
    }
    VF_reach();
    VF_END;
}

/* paths end one by one; here they are joined before the next scene */
static void
vfh_scene(int what, int n, int a, int b, int c)
{
    if (!TURN) return;
    switch (what) {
    case 0: vfh_producer(n, a, b, c); break;
    case 1: vfh_consumer(n, a, b, c); break;
    case 2: vfh_looker(n, a, b); break;
    case 3: vfh_history(n, a, b); break;
    case 4: vfh_fixed(); break;
    }
    VF_END;
}

int
main(void)
{
    for (int n = 2; n <= MAXN; n++)
        for (int rot = 0; rot < n; rot++)
            for (int k = 0; k < n; k++) {
                for (int ops = 1; ops <= 2; ops++) {
                    vfh_scene(0, n, rot, k, ops);
                    vfh_scene(1, n, rot, k, ops);
                }
                vfh_scene(2, n, rot, k, 0);
            }
    for (int n = 1; n <= MAXN; n++)
        for (unsigned c = 0; c < (1u << HLEN); c++)
            vfh_scene(3, n, HLEN, c, 0);
    vfh_scene(4, 0, 0, 0, 0);
    return 0;
}
