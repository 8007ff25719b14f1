/* queue.h: a ring of sz slots holds up to sz-1 elements, first in first out, from every read/write position. */
#include "vf.h"
#include "vf_heap.h"
#include "fast/queue.h"

FQ_TYPEDEF(q2, int, 2);
FQ_TYPEDEF(q3, int, 3);
FQ_TYPEDEF(q5, int, 5);
FQ_DYN_TYPEDEF(qd, int);
typedef struct { short a; long b; } pr;
FQ_TYPEDEF(qs, pr, 4);

/* q with n elements 100.. in it starting at slot rd, then one operation */
#define RUN(Q, SZ, rd_, n, op)  do {                                    \
    const int sz = SZ; int rdv = (rd_), x = -1, k;                              \
    (Q)->q.rd = rdv; (Q)->q.wr = (rdv + n) % sz; (Q)->q.sz = sz;        \
    for (k = 0; k < n; k++) (Q)->elem[(rdv + k) % sz] = 100 + k;        \
    PROVE(FQ_SIZE(Q) == n && !FQ_EMPTY_P(Q) == (n > 0) && !FQ_FULL_P(Q) == (n < sz - 1)); \
    int m = n, first = 100;                                             \
    if (op == 0) { int r = FQ_ENQ(Q, 55); PROVE(!r == (n == sz - 1)); if (r) m++; } \
    if (op == 1) { int r = FQ_DEQ(Q, x); PROVE(!r == (n == 0)); PROVE(x == (n ? 100 : -1)); if (r) { m--; first++; } } \
    if (op == 2) { FQ_RESET(Q); m = 0; }                                \
    VF_reach();                                                         \
    PROVE(FQ_SIZE(Q) == m && !FQ_EMPTY_P(Q) == (m > 0) && !FQ_FULL_P(Q) == (m < sz - 1)); \
    for (k = 0; k < m; k++) {                                           \
        PROVE(FQ_DEQ(Q, x));                                            \
        PROVE(x == (m > n && k == m - 1 ? 55 : first + k));             \
    }                                                                   \
    PROVE(!FQ_DEQ(Q, x) && FQ_EMPTY_P(Q));                              \
} while (0)

static void vfh_s2(int rd, int n, int op) { q2 q; RUN(&q, 2, rd, n, op); VF_END; }
static void vfh_s3(int rd, int n, int op) { q3 q; RUN(&q, 3, rd, n, op); VF_END; }
static void vfh_s5(int rd, int n, int op) { q5 q; RUN(&q, 5, rd, n, op); VF_END; }
static void vfh_sd(int zz, int rd, int n, int op)
{
    qd q;
    vf_heap_reset();
    FQ_DYN_INIT(&q, zz);
    PROVE(FQ_EMPTY_P(&q) && vf_live == 1);
    RUN(&q, zz, rd, n, op);
    FQ_DYN_FINI(&q);
    PROVE(vf_live == 0);
    VF_END;
}
/* fill and drain, several times round */
static void
vfh_round_trip(int per, int laps)
{
    qs q;
    int in = 0, out = 0;
    FQ_INIT(&q, 4);
    PROVE(FQ_EMPTY_P(&q) && FQ_SIZE(&q) == 0);
    for (int l = 0; l < laps; l++) {
        for (int i = 0; i < per; i++) { pr e = { (short)in, -in }; int r = FQ_ENQ(&q, e); PROVE(!r == (i >= 3)); if (r) in++; PROVE(FQ_SIZE(&q) <= 3); }
        for (int i = 0; i < per; i++) { pr e = { -1, 1 }; int r = FQ_DEQ(&q, e); PROVE(!r == (out == in)); if (r) { PROVE(e.a == out && e.b == -out); out++; } }
        PROVE(in == out);
    }
    VF_reach();
    FQ_FINI(&q);
    VF_END;
}
/* 32-bit positions of a big ring: any position, any fill */
static void
vfh_big(uint32_t sz, uint32_t rd, uint32_t n)
{
    __fast_queue q = { rd, (uint32_t)(((uint64_t)rd + n) % sz), sz };
    uint32_t i = 77;
    PROVE(__q_size(&q) == n && !__q_full_p(&q) == (n < sz - 1) && !__q_empty_p(&q) == (n > 0));
    uint32_t w = q.wr;
    int r = __next_wr(&q, &i);
    PROVE(!r == (n == sz - 1));
    if (r) PROVE(i == w && __q_size(&q) == n + 1 && q.wr < sz); else PROVE(q.wr == w);
    int s = __next_rd(&q, &i);
    PROVE(!s == (n == 0 && !r));
    if (s) PROVE(i == rd && q.rd < sz);
    VF_reach();
    VF_END;
}
int main(void)
{
    for (int op = 0; op < 3; op++) {
        for (int rd = 0; rd < 2; rd++) for (int n = 0; n < 2; n++) vfh_s2(rd, n, op);
        for (int rd = 0; rd < 3; rd++) for (int n = 0; n < 3; n++) vfh_s3(rd, n, op);
        for (int rd = 0; rd < 5; rd++) for (int n = 0; n < 5; n++) vfh_s5(rd, n, op);
        for (int sz = 2; sz <= MAXQ; sz++)
            for (int rd = 0; rd < sz; rd++) for (int n = 0; n < sz; n++) vfh_sd(sz, rd, n, op);
    }
    for (int per = 1; per <= 4; per++) vfh_round_trip(per, 6);
    static const uint32_t szs[] = { 2, 1000, 0x80000000U, 0xffffffffU };
    for (int i = 0; i < 4; i++) {
        uint32_t z = szs[i];
        uint32_t pos[] = { 0, 1, z / 2, z - 2, z - 1 };
        for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) vfh_big(z, pos[a], pos[b]);
    }
    return 0;
}
