/* inc/fast/syncq.h, src/posix/work.c, src/posix/job.c: blocking queues and
 * the thread pools on top of them.
 *
 * PART 0: one queue operation, thread-modular: while the lock is not held
 * the queue's fields and slots hold garbage; taking it makes them any state
 * of any ring position that the semaphore just passed allows.
 * PART 1: the work manager, PART 2: the job manager: semaphores and mutexes
 * are counted objects, a blocked main thread lets one of the threads run. */
#include "vf.h"
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>

#define MAXOBJ 16
static struct { void *p; int kind, n; } O[MAXOBJ];      /* semaphores and mutexes alive */
enum { SEM = 1, MTX };
static int vfh_nalloc, vfh_fail_at, vfh_calls, vfh_eintr;
static int vfh_obj(void *p, int kind)
{
    for (int i = 0; i < MAXOBJ; i++) if (O[i].p == p && O[i].kind == kind) return i;
    return -1;
}
static int vfh_failing(void) { return ++vfh_calls == vfh_fail_at; }
static void vfh_add(void *p, int kind, int n)
{
    PROVE(vfh_obj(p, kind) < 0);
    for (int i = 0; i < MAXOBJ; i++) if (O[i].kind == 0) { O[i].p = p; O[i].kind = kind; O[i].n = n; return; }
    PROVE(0);
}
static int vfh_del(void *p, int kind)
{
    int i = vfh_obj(p, kind);
    PROVE(i >= 0);
    O[i].kind = 0; O[i].p = 0;
    return 0;
}
static int vfh_alive(void) { int n = 0; for (int i = 0; i < MAXOBJ; i++) n += O[i].kind != 0; return n; }

static void vfh_on_lock(void *m), vfh_on_unlock(void *m), vfh_on_wait(void *s), vfh_on_post(void *s), vfh_others(void);
static int vf_mutex_init(pthread_mutex_t *m, const void *a) { if (vfh_failing()) return ENOMEM; vfh_add(m, MTX, 0); return 0; }
static int vf_mutex_destroy(pthread_mutex_t *m) { int i = vfh_obj(m, MTX); PROVE(i >= 0 && O[i].n == 0); return vfh_del(m, MTX); }
static int vf_mutex_lock(pthread_mutex_t *m) { int i = vfh_obj(m, MTX); PROVE(i >= 0 && O[i].n == 0); O[i].n = 1; vfh_on_lock(m); return 0; }
static int vf_mutex_unlock(pthread_mutex_t *m) { int i = vfh_obj(m, MTX); PROVE(i >= 0 && O[i].n == 1); vfh_on_unlock(m); O[i].n = 0; return 0; }
static int vf_sem_init(sem_t *s, int sh, unsigned n) { if (vfh_failing()) { errno = ENOSPC; return -1; } vfh_add(s, SEM, n); return 0; }
static int vf_sem_destroy(sem_t *s) { return vfh_del(s, SEM); }
static int vf_sem_wait(sem_t *s)
{
    int i = vfh_obj(s, SEM);
    PROVE(i >= 0);
    if (vfh_eintr > 0) { vfh_eintr--; errno = EINTR; return -1; }
    vfh_on_wait(s);
    for (int k = 0; k < 4 && O[i].n == 0; k++) vfh_others();
    PROVE(O[i].n > 0);
    O[i].n--;
    return 0;
}
static int vf_sem_post(sem_t *s) { int i = vfh_obj(s, SEM); PROVE(i >= 0); O[i].n++; vfh_on_post(s); return 0; }
static int vf_create(unsigned long *id, const void *attr, void *(*fn)(void *), void *arg);
static int vf_join(unsigned long id, void **r);
static void *vf_calloc(size_t a, size_t b) { if (vfh_failing()) return 0; vfh_nalloc++; return calloc(a, b); }
static void vf_free(void *p) { if (p) vfh_nalloc--; free(p); }
#define pthread_mutex_init      vf_mutex_init
#define pthread_mutex_destroy   vf_mutex_destroy
#define pthread_mutex_lock      vf_mutex_lock
#define pthread_mutex_unlock    vf_mutex_unlock
#define sem_init        vf_sem_init
#define sem_destroy     vf_sem_destroy
#define sem_wait        vf_sem_wait
#define sem_post        vf_sem_post
#define pthread_create  vf_create
#define pthread_join    vf_join
#define pthread_t       unsigned long       /* as in glibc */
#define calloc          vf_calloc
#define free            vf_free
static int vfh_k_;
#define MINE (vfh_k_++ % VF_NSHARD == VF_SHARD)

#if PART == 0
#include "fast/syncq.h"
#include "posix/cmutex.c"
static int vf_create(pthread_t *id, const void *attr, void *(*fn)(void *), void *arg) { return 0; }
static int vf_join(pthread_t id, void **r) { return 0; }
typedef struct { int a, b; } el;
SYNCQ_TYPEDEF(sq, el, 4);
static sq Q;
static el vfh_val(int i) { el e = { i * 7 + 5, ~i }; return e; }
static int vfh_eq(el x, el y) { return x.a == y.a && x.b == y.b; }
static const el POISON = { -77, -77 }, SELF = { -5, -6 };
enum { ENQ = 1, DEQ, SEQ };
static int vfh_role, N, vfh_rd, vfh_cnt, vfh_token, vfh_locks, vfh_done, vfh_posts;

static void vfh_garbage(void)
{
    Q.s.rd = Q.s.wr = 0x7777;
    for (int i = 0; i < 4; i++) Q.e[i] = POISON;
}
static void vfh_others(void)
{
    if (vfh_role != SEQ) for (int i = 0; i < MAXOBJ; i++) if (O[i].kind == SEM && O[i].n == 0) O[i].n = 1;
}
static void vfh_on_wait(void *s)
{
    if (vfh_role == SEQ) return;
    PROVE(!vfh_token && vfh_obj(&Q.s.lock, MTX) >= 0 && O[vfh_obj(&Q.s.lock, MTX)].n == 0);  /* never blocks with the lock held */
    PROVE(s == (vfh_role == ENQ ? &Q.s.notfull : &Q.s.notempty));
    vfh_token = 1;
}
static void vfh_on_lock(void *m)
{
    if (vfh_role == SEQ) return;
    PROVE(m == &Q.s.lock && vfh_token && !vfh_done);
    vfh_locks++;
    Q.s.rd = vfh_rd;
    Q.s.wr = (vfh_rd + vfh_cnt) % N;
    for (int i = 0; i < vfh_cnt; i++) Q.e[(vfh_rd + i) % N] = vfh_val(i);
}
static void vfh_on_unlock(void *m)
{
    if (vfh_role == SEQ) return;
    int r = vfh_rd, c = vfh_cnt, w = (vfh_rd + vfh_cnt) % N;
    if (vfh_role == ENQ) { c++; PROVE(vfh_eq(Q.e[w], SELF)); }
    else r = (vfh_rd + 1) % N;
    PROVE(Q.s.rd == (uint32_t)r && Q.s.wr == (uint32_t)((vfh_rd + c) % N) && Q.s.sz == (uint32_t)N);
    for (int i = vfh_role == DEQ; i < vfh_cnt; i++) PROVE(vfh_eq(Q.e[(vfh_rd + i) % N], vfh_val(i)));
    vfh_garbage();
    vfh_done = 1;
}
static void vfh_on_post(void *s)
{
    if (vfh_role == SEQ) return;
    PROVE(s == (vfh_role == ENQ ? &Q.s.notempty : &Q.s.notfull) && vfh_locks == 1);
    vfh_posts++;
}

static void
vfh_begin(int r)
{
    vfh_role = r; vfh_token = vfh_locks = vfh_done = vfh_posts = 0;
}

static void
vfh_operation(int op, int n, int r, int c, int intr)
{
    el e;
    vfh_role = SEQ; vfh_fail_at = 0; vfh_eintr = 0; N = n;
    PROVE(SYNCQ_INIT(&Q, n) == 0);
    PROVE(O[vfh_obj(&Q.s.notempty, SEM)].n == 0 && O[vfh_obj(&Q.s.notfull, SEM)].n == n && Q.s.rd == 0 && Q.s.wr == 0);
    vfh_rd = r;
    vfh_cnt = op == ENQ ? c : c + 1;
    O[vfh_obj(&Q.s.notempty, SEM)].n = vfh_cnt;
    O[vfh_obj(&Q.s.notfull, SEM)].n = n - vfh_cnt;
    if (intr & 1) O[vfh_obj(op == ENQ ? &Q.s.notfull : &Q.s.notempty, SEM)].n = 0;      /* has to wait */
    vfh_garbage();
    vfh_begin(op);
    vfh_eintr = intr;
    if (op == ENQ) SYNCQ_ENQ(&Q, SELF);
    else {
        e = SYNCQ_DEQ(&Q);
        PROVE(vfh_eq(e, vfh_val(0)));
    }
    PROVE(vfh_token && vfh_locks == 1 && vfh_done && vfh_posts == 1);
    VF_reach();
    vfh_role = SEQ;
    SYNCQ_FINI(&Q);
    PROVE(vfh_alive() == 0);
    VF_END;
}

static void
vfh_history(int n, unsigned code, int len)
{
    int in = 0, out = 0;
    vfh_role = SEQ; vfh_eintr = 0;
    PROVE(SYNCQ_INIT(&Q, n) == 0);
    for (int i = 0; i < len; i++, code >>= 1) {
        int put = code & 1;
        if (in == out) put = 1;
        if (in - out == n) put = 0;
        if (put) { el e = vfh_val(in++); SYNCQ_ENQ(&Q, e); }
        else { el e = SYNCQ_DEQ(&Q); PROVE(vfh_eq(e, vfh_val(out))); out++; }
        PROVE(O[vfh_obj(&Q.s.notempty, SEM)].n == in - out && O[vfh_obj(&Q.s.notfull, SEM)].n == n - (in - out));
    }
    VF_reach();
    SYNCQ_FINI(&Q);
    VF_END;
}

static void
vfh_init_fails(int k)
{
    vfh_role = SEQ; vfh_calls = 0; vfh_fail_at = k;
    int r = SYNCQ_INIT(&Q, 3);
    PROVE(k > 3 ? r == 0 && vfh_alive() == 3 : r == (k == 1 ? -ENOMEM : -ENOSPC) && vfh_alive() == 0);
    VF_reach();
    if (r == 0) SYNCQ_FINI(&Q);
    vfh_fail_at = 0;
    VF_END;
}

/* the posix lock manager */
static void
vfh_locker(int k)
{
    lockmgr l;
    memset(&l, 0, sizeof l);
    l.create = Mutex_locker.create;
    vfh_role = SEQ; vfh_calls = 0; vfh_fail_at = k; vfh_nalloc = 0;
    lockmgr_create(&l);
    if (k == 1 || k == 2) PROVE(l.lock == 0 && l.opaq == 0 && vfh_nalloc == 0 && vfh_alive() == 0);
    else {
        PROVE(vfh_alive() == 1 && vfh_obj(l.opaq, MTX) >= 0);
        int o = vfh_obj(l.opaq, MTX);
        lockmgr_lock(&l);
        PROVE(O[o].n == 1);
        lockmgr_unlock(&l);
        PROVE(O[o].n == 0);
        lockmgr_delete(&l);
        PROVE(vfh_alive() == 0 && vfh_nalloc == 0 && l.lock == 0);
        VF_reach();
    }
    vfh_fail_at = 0;
    VF_END;
}

int
main(void)
{
    for (int k = 0; k <= 2; k++)
        if (MINE) vfh_locker(k);
    for (int n = 1; n <= 4; n++)
        for (int r = 0; r < n; r++)
            for (int c = 0; c < n; c++)
                for (int i = 0; i < 3; i++) {
                    if (MINE) vfh_operation(ENQ, n, r, c, i);
                    if (MINE) vfh_operation(DEQ, n, r, c, i);
                }
    for (int n = 1; n <= 3; n++)
        for (unsigned c = 0; c < (1u << HLEN); c++)
            if (MINE) vfh_history(n, c, HLEN);
    for (int k = 1; k <= 4; k++)
        if (MINE) vfh_init_fails(k);
    return 0;
}

#else

#if PART == 1
#include "posix/work.h"
#undef WORK_MAX
#define WORK_MAX 6
#else
#include "posix/job.h"
#endif
static int vfh_in_thread, vfh_nth;
static struct { void *(*fn)(void *); void *arg; int state; void *r; } TH[4];    /* state: 1 created, 2 finished, 3 joined */
static int vfh_order;                       /* which thread runs first */

static void vfh_run(int i)
{
    PROVE(!vfh_in_thread);
    vfh_in_thread = 1;
    TH[i].r = TH[i].fn(TH[i].arg);
    vfh_in_thread = 0;
    TH[i].state = 2;
}
static void vfh_others(void)
{
    PROVE(!vfh_in_thread);                  /* a thread here would wait for ever */
    for (int i = 0; i < vfh_nth; i++) {
        int j = vfh_order ? vfh_nth - 1 - i : i;
        if (TH[j].state == 1) { vfh_run(j); return; }
    }
    PROVE(0);                           /* nobody left to end the wait */
}
static int vf_create(pthread_t *id, const void *attr, void *(*fn)(void *), void *arg)
{
    if (vfh_failing()) return EAGAIN;
    TH[vfh_nth].fn = fn; TH[vfh_nth].arg = arg; TH[vfh_nth].state = 1;
    *id = vfh_nth + 100;
    vfh_nth++;
    return 0;
}
static int vf_join(pthread_t id, void **r)
{
    int i = (int)id - 100;
    PROVE(i >= 0 && i < vfh_nth);
    if (TH[i].state == 1) vfh_run(i);
    PROVE(TH[i].state == 2);
    TH[i].state = 3;
    if (r) *r = TH[i].r;
    return 0;
}
static void vfh_on_lock(void *m) { PROVE(1); }
static void vfh_on_unlock(void *m) { PROVE(1); }
static void vfh_on_wait(void *s) { PROVE(1); }
static void vfh_on_post(void *s) { PROVE(1); }
int sys_cpu_getavail(void) { return 2; }
void sys_cpu_set_my_thread_affinity(int cpu) { PROVE(cpu >= 0 && cpu < vfh_nth); }
void error(int doexit, int err, const char *fmt, ...) { PROVE(!doexit); }

static int vfh_items[8], vfh_got[8], vfh_who[8], vfh_ctx, vfh_seq, vfh_bad, vfh_lastof[4];

#if PART == 1
#include "posix/work.c"
typedef work_manager mgr;
#define INIT        work_manager_init
#define WAIT        work_manager_wait
#define FINI        work_manager_destroy
#else
#include "posix/job.c"
typedef job_manager mgr;
#define INIT        job_manager_init
#define WAIT        job_manager_wait
#define FINI        job_manager_destroy
#endif

static int
vfh_func(void *c, void *w, int nr)
{
    int i = (int *)w - vfh_items;
    PROVE(c == &vfh_ctx && vfh_in_thread && i >= 0 && i < 8 && nr >= 0 && nr < vfh_nth);
    vfh_got[i]++;
    vfh_who[i] = nr;
    PROVE(vfh_lastof[nr] < i);                      /* in the order they were submitted */
    vfh_lastof[nr] = i;
    return (vfh_bad >> i) & 1 ? -1 : i;
}

static void
vfh_pool(int nt, int n, int code, int failures, int ord)
{
    mgr m;
    int rr = 0, exp[8], errs = 0;
    vfh_nth = 0; vfh_calls = 0; vfh_fail_at = 0; vfh_eintr = 0; vfh_nalloc = 0; vfh_in_thread = 0; vfh_order = ord; vfh_bad = failures;
    for (int i = 0; i < 8; i++) vfh_got[i] = 0;
    for (int i = 0; i < 4; i++) vfh_lastof[i] = -1;
    int real = nt <= 0 ? 2 : nt;
    PROVE(INIT(&m, nt, vfh_func, &vfh_ctx) == real);
    PROVE(vfh_nth == real);
    for (int i = 0; i < n; i++, code /= 3) {
#if PART == 1
        int next = code % 3 - 1;        /* -1, 0, 1 */
        if (next < 0 || next >= real) { exp[i] = rr; rr = (rr + 1) % real; }
        else exp[i] = next;
        PROVE(work_manager_submit_work(&m, code % 3 == 1 ? 0 : code % 3 == 2 ? 1 : (code & 1 ? -1 : real), &vfh_items[i]) == exp[i]);
#else
        job_manager_submit_job(&m, &vfh_items[i]);
#endif
        errs += (vfh_bad >> i) & 1;
    }
    if (ord) vfh_eintr = 1;
    PROVE(WAIT(&m) == errs);
    for (int i = 0; i < n; i++) {
        PROVE(vfh_got[i] == 1);
#if PART == 1
        PROVE(vfh_who[i] == exp[i]);
#endif
    }
    for (int i = 0; i < vfh_nth; i++) PROVE(TH[i].state == 3);
    FINI(&m);
    PROVE(vfh_alive() == 0 && vfh_nalloc == 0);
    VF_reach();
    VF_END;
}

static void
vfh_fails(int k)
{
    mgr m;
    vfh_nth = 0; vfh_calls = 0; vfh_fail_at = k; vfh_eintr = 0; vfh_nalloc = 0; vfh_in_thread = 0; vfh_order = k & 1;
    int r = INIT(&m, 2, vfh_func, &vfh_ctx);
    PROVE(r == 2 || r < 0);
    PROVE((r == 2) == (vfh_calls < k));
    if (r < 0) {
        for (int i = 0; i < vfh_nth; i++) PROVE(TH[i].state == 3);
        PROVE(vfh_alive() == 0 && vfh_nalloc == 0);
    } else {
        vfh_fail_at = 0;
        PROVE(WAIT(&m) == 0);
        FINI(&m);
        VF_reach();
    }
    VF_END;
}

int
main(void)
{
    for (int nt = 0; nt <= 3; nt++)
        for (int n = 0; n <= ITEMS; n++)
            for (int c = 0; c < (PART == 1 ? vf_pow(3, n) : 1); c++)
                for (int o = 0; o < 2; o++)
                    if (MINE) vfh_pool(nt, n, c, (c + n) & 7, o);
    for (int k = 1; k <= 14; k++)
        if (MINE) vfh_fails(k);
    return 0;
}
#endif
