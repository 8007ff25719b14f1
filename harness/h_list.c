/* list.h: one operation on any list of up to MAXL nodes leaves exactly the expected list, forwards and backwards. */
#include "vf.h"
#include "fast/list.h"

typedef struct node node;
struct node { int id; DL_LINK(node) l; SL_LINK(node) s; };
DL_HEAD_TYPEDEF(dl, node);
SL_HEAD_TYPEDEF(sl, node);

#define MAXN (2 * MAXL + 2)
static node vfh_pool[MAXN];

/* build by hand: nodes from.. from+n-1, in order */
static void
vfh_mkdl(dl *h, int from, int n)
{
    h->first = n ? &vfh_pool[from] : 0;
    h->last  = n ? &vfh_pool[from + n - 1] : 0;
    for (int i = 0; i < n; i++) {
        vfh_pool[from + i].l.next = i + 1 < n ? &vfh_pool[from + i + 1] : 0;
        vfh_pool[from + i].l.prev = i ? &vfh_pool[from + i - 1] : 0;
    }
}
static void
vfh_isdl(dl *h, const int *exp, int n)
{
    node *p;
    int k = 0;
    PROVE(h->first == (n ? &vfh_pool[exp[0]] : 0));
    PROVE(h->last == (n ? &vfh_pool[exp[n - 1]] : 0));
    for (int i = 0; i < n; i++) {
        p = &vfh_pool[exp[i]];
        PROVE(p->l.next == (i + 1 < n ? &vfh_pool[exp[i + 1]] : 0));
        PROVE(p->l.prev == (i ? &vfh_pool[exp[i - 1]] : 0));
    }
    DL_FOREACH(h, p, l) { PROVE(k < n); PROVE(p == &vfh_pool[exp[k]]); k++; }
    PROVE(k == n);
    DL_FOREACH_REVERSE(h, p, l) { k--; PROVE(k >= 0); PROVE(p == &vfh_pool[exp[k]]); }
    PROVE(k == 0);
    PROVE(DL_EMPTY(h) == (n == 0) && DL_empty_p(h) == (n == 0));
    PROVE(DL_FIRST(h) == h->first && DL_LAST(h) == h->last);
}

/* expected: 0..n-1 with x put in at 'at' (x<0: with the one at 'at' taken out) */
static int
vfh_edit(int *e, int n, int at, int x)
{
    int k = 0;
    for (int i = 0; i <= n; i++) {
        if (i == at && x >= 0) e[k++] = x;
        if (i < n && !(i == at && x < 0)) e[k++] = i;
    }
    return k;
}

static void
vfh_scene_dl(int n, int op, int at)
{
    dl h;
    int e[MAXN], m = n;
    node fresh, *x = &vfh_pool[MAXN - 1], *r;
    static const node zero;
    vfh_pool[MAXN - 1] = fresh;         /* its links are uninitialized */
    vfh_mkdl(&h, 0, n);
    vfh_isdl(&h, (vfh_edit(e, n, n + 1, -1), e), n);
    switch (op) {
        case 0: DL_INSERT_HEAD(&h, x, l); m = vfh_edit(e, n, 0, MAXN - 1); break;
        case 1: DL_INSERT_TAIL(&h, x, l); m = vfh_edit(e, n, n, MAXN - 1); break;
        case 2: DL_APPEND(&h, x, l);      m = vfh_edit(e, n, n, MAXN - 1); break;
        case 3: DL_INSERT_AFTER(&h, &vfh_pool[at], x, l);  m = vfh_edit(e, n, at + 1, MAXN - 1); break;
        case 4: DL_INSERT_BEFORE(&h, &vfh_pool[at], x, l); m = vfh_edit(e, n, at, MAXN - 1); break;
        case 5: DL_REMOVE(&h, &vfh_pool[at], l);           m = vfh_edit(e, n, at, -1); break;
        case 6: r = DL_REMOVE_HEAD(&h, l); PROVE(r == (n ? &vfh_pool[0] : 0));     m = vfh_edit(e, n, n ? 0 : 9, -1); break;
        case 7: r = DL_REMOVE_TAIL(&h, l); PROVE(r == (n ? &vfh_pool[n - 1] : 0)); m = vfh_edit(e, n, n ? n - 1 : 9, -1); break;
        case 8: DL_INIT(&h); m = 0; break;
    }
    VF_reach();
    vfh_isdl(&h, e, m);
    VF_END;
}

static void
vfh_scene_cat(int n, int m, int prepend)
{
    dl a, b;
    int e[MAXN], k = 0;
    vfh_mkdl(&a, 0, n);
    vfh_mkdl(&b, MAXL, m);
    if (prepend) { DL_PREPEND_LIST(&a, &b, l); for (int i = 0; i < m; i++) e[k++] = MAXL + i; for (int i = 0; i < n; i++) e[k++] = i; }
    else         { DL_APPEND_LIST(&a, &b, l);  for (int i = 0; i < n; i++) e[k++] = i; for (int i = 0; i < m; i++) e[k++] = MAXL + i; }
    VF_reach();
    vfh_isdl(&a, e, n + m);
    vfh_isdl(&b, e, 0);
    VF_END;
}

static void
vfh_scene_sl(int n, int op, int at)
{
    sl h;
    int e[MAXN], m = n, k = 0;
    node fresh, *x = &vfh_pool[MAXN - 1], *p, *t;
    vfh_pool[MAXN - 1] = fresh;
    h.slh_first = n ? &vfh_pool[0] : 0;
    for (int i = 0; i < n; i++) vfh_pool[i].s.sle_next = i + 1 < n ? &vfh_pool[i + 1] : 0;
    vfh_edit(e, n, n + 1, -1);
    switch (op) {
        case 0: SL_INSERT_HEAD(&h, x, s); m = vfh_edit(e, n, 0, MAXN - 1); break;
        case 1: SL_INSERT_AFTER(&h, &vfh_pool[at], x, s); m = vfh_edit(e, n, at + 1, MAXN - 1); break;
        case 2: SL_REMOVE_HEAD(&h, s); m = vfh_edit(e, n, 0, -1); break;
        case 3: SL_INIT(&h); m = 0; break;
    }
    VF_reach();
    PROVE(SL_FIRST(&h) == (m ? &vfh_pool[e[0]] : 0) && SL_EMPTY(&h) == (m == 0));
    SL_FOREACH(p, &h, s) { PROVE(k < m); PROVE(p == &vfh_pool[e[k]]); k++; }
    PROVE(k == m);
    /* the safe form survives the node being destroyed in the body */
    k = 0;
    SL_FOREACH_SAFE(p, &h, s, t) { PROVE(k < m); PROVE(p == &vfh_pool[e[k]]); k++; *p = fresh; }
    PROVE(k == m);
    VF_END;
}

/* typed heads start empty */
static void
vfh_scene_init(void)
{
    dl d = DL_HEAD_INITIALIZER(d);
    sl s = SL_HEAD_INITIALIZER(s);
    node x;
    node *y = &x;
    DL_LINK_INIT(y, l);
    VF_reach();
    PROVE(DL_EMPTY(&d) && d.last == 0 && SL_EMPTY(&s) && x.l.next == 0 && x.l.prev == 0);
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= MAXL; n++) {
        for (int op = 0; op <= 8; op++)
            for (int at = 0; at < (op >= 3 && op <= 5 ? n : 1); at++) vfh_scene_dl(n, op, at);
        for (int m = 0; m <= MAXL; m++) { vfh_scene_cat(n, m, 0); vfh_scene_cat(n, m, 1); }
        for (int op = 0; op <= 3; op++)
            for (int at = 0; at < (op == 1 ? n : 1); at++) if (n || op != 2) vfh_scene_sl(n, op, at);
    }
    vfh_scene_init();
    return 0;
}
