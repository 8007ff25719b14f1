/* Pack/Unpack: every descriptor, count form and byte order against the documented encoding; tight buffers; any input. */
#include "vf.h"
#define HEAP_SIZE 160
#define HEAP_SLOTS 3
#include "vf_heap.h"
#undef isdigit
#undef isspace
#define memset(p, c, n)  ((n) ? memset(p, c, n) : (p))   /* n == 0 at the end of an object is fine */
#include "src/pack.c"

static const char vfh_tc[] = { 'b', 'B', 's', 'S', 'i', 'I', 'l', 'L', 'f', 'D' };
static const int  vfh_ts[] = {  1,   1,   2,   2,   4,   4,   8,   8,   4,   8 };
static uint8_t vfh_out_[200];
static uint8_t vfh_exp_[200];
static int vfh_elen;

/* byte k (least significant first) of element i */
static unsigned vfh_val_;
#define EB(i, k)   ((uint8_t)(vfh_val_ * 3 + (i) * 29 + (k) * 67 + 0x81))
static uint64_t
vfh_elem(int i, int size)
{
    uint64_t v = 0;
    for (int k = 0; k < size; k++) v |= (uint64_t)EB(i, k) << (8 * k);
    return v;
}
static void vfh_put(int big, uint64_t v, int size) { for (int k = 0; k < size; k++) vfh_exp_[vfh_elen++] = v >> 8 * (big ? size - 1 - k : k); }
static void
vfh_setarr(void *a, int n, int size)
{
    for (int i = 0; i < n; i++) switch (size) {
        case 1: ((uint8_t *)a)[i] = vfh_elem(i, 1); break;
        case 2: ((uint16_t *)a)[i] = vfh_elem(i, 2); break;
        case 4: ((uint32_t *)a)[i] = vfh_elem(i, 4); break;
        case 8: ((uint64_t *)a)[i] = vfh_elem(i, 8); break;
    }
}
static void
vfh_isarr(const void *a, int n, int size)
{
    for (int i = 0; i < n; i++) switch (size) {
        case 1: PROVE(((const uint8_t *)a)[i] == vfh_elem(i, 1)); break;
        case 2: PROVE(((const uint16_t *)a)[i] == vfh_elem(i, 2)); break;
        case 4: PROVE(((const uint32_t *)a)[i] == vfh_elem(i, 4)); break;
        case 8: PROVE(((const uint64_t *)a)[i] == vfh_elem(i, 8)); break;
    }
}
#define B_(n)   (&vfh_out_[200 - (n)])
static void vfh_isout(int n) { for (int i = 0; i < vfh_elen; i++) PROVE(B_(n)[i] == vfh_exp_[i]); }

/* form 0: bare; n > 0: decimal count n; n < 0: '*' with count ~n */
static int
vfh_fmtof(char *f, int order, char t, int n)
{
    int k = 0;
    if (order) f[k++] = order == 1 ? '<' : '>';
    if (n < 0) { f[k++] = '*'; f[k++] = ' '; }
    if (n >= 10) f[k++] = '0' + n / 10;
    if (n > 0) f[k++] = '0' + n % 10;
    f[k++] = t;
    f[k] = 0;
    return k;
}

static void
vfh_scene_type(int t, int order, int n, int val)
{
    char fmt[8], t_ = vfh_tc[t];
    int size = vfh_ts[t], cnt = n == 0 ? 1 : n > 0 ? n : ~n, big = order == 2;
    uint64_t arr[16] = { 0 }, back[16] = { 0 };
    vf_heap_reset();
    vfh_val_ = val;
    vfh_fmtof(fmt, order, t_, n);
    vfh_setarr(arr, cnt, size);
    vfh_elen = 0;
    if (n < 0) vfh_put(big, cnt, 4);
    for (int i = 0; i < cnt; i++) vfh_put(big, vfh_elem(i, size), size);
    int need = vfh_elen;
    /* room for all but one byte, then for all, then one to spare */
    for (int cap = need - 1; cap <= need + 1; cap++) {
        ssize_t r;
        if (cap < 0) continue;
        if (n < 0) r = Pack(B_(cap), cap, fmt, (uint32_t)cnt, (void *)arr);
        else if (n > 1) r = Pack(B_(cap), cap, fmt, (void *)arr);
        else if (t_ == 'f') r = Pack(B_(cap), cap, fmt, (double)*(float *)arr);
        else if (t_ == 'D') r = Pack(B_(cap), cap, fmt, *(double *)arr);
        else r = Pack(B_(cap), cap, fmt, (void *)(ptrdiff_t)arr[0]);
        if (cap < need) { PROVE(r < 0); continue; }
        VF_reach();
        PROVE(r == need);
        vfh_isout(cap);
        for (int i = 0; i < need; i++) B_(need)[i] = vfh_exp_[i];
        if (n < 0) {
            uint32_t got = 77;
            void *p = 0;
            r = Unpack(B_(need), need, fmt, &got, (void *)&p);
            PROVE(r == need && got == cnt);
            PROVE(vf_live == (cnt > 0));
            if (cnt) { vfh_isarr(p, cnt, size); ((uint8_t *)p)[cnt * size - 1] = 0; }
            free(p);
        } else {
            r = Unpack(B_(need), need, fmt, (void *)((uint8_t *)back + 128 - cnt * size));
            PROVE(r == need);
            vfh_isarr((uint8_t *)back + 128 - cnt * size, cnt, size);
        }
        PROVE(vf_live == 0);
    }
    /* cut short */
    if (n < 0) {
        uint32_t got = 77;
        void *p = 0;
        ssize_t r = Unpack(B_(need - 1), need - 1, fmt, &got, (void *)&p);
        PROVE(r < 0 && vf_live == 0);
        if (cnt) {
            /* out of memory */
            vf_heap_reset();
            vf_fail_at = 0;
            PROVE(Unpack(B_(need), need, fmt, &got, (void *)&p) == -ENOMEM && vf_live == 0);
            vf_heap_reset();
        }
    } else PROVE(Unpack(B_(need - 1), need - 1, fmt, (void *)back) < 0);
    VF_END;
}

/* strings of m bytes (m < 0: null); n as above */
static void
vfh_scene_str(int m, int n, int order, char z)
{
    char fmt[8], s_[8] = { 0 }, *s = &s_[7 - (m < 0 ? 0 : m)];
    vf_heap_reset();
    vfh_fmtof(fmt, order, z, n);
    for (int i = 0; i < m; i++) s[i] = i & 1 ? -1 - i : 'a' + i;
    int cnt = n == 0 ? (m < 0 ? 1 : m + 1) : n > 0 ? n : ~n;
    vfh_elen = 0;
    if (n < 0) vfh_put(order == 2, cnt, 4);
    for (int i = 0; i < cnt; i++) vfh_exp_[vfh_elen++] = i < m ? s[i] : 0;
    int need = vfh_elen;
    for (int cap = need - 1; cap <= need + 1; cap++) {
        ssize_t r;
        if (cap < 0) continue;
        if (n < 0) r = Pack(B_(cap), cap, fmt, (uint32_t)cnt, (void *)(m < 0 ? 0 : s));
        else r = Pack(B_(cap), cap, fmt, (void *)(m < 0 ? 0 : s));
        if (cap < need) { PROVE(r < 0); continue; }
        VF_reach();
        PROVE(r == need);
        vfh_isout(cap);
    }
    for (int i = 0; i < need; i++) B_(need)[i] = vfh_exp_[i];
    for (int cut = 0; cut < 2 && need - cut >= 0; cut++) {
        char *p = 0;
        uint32_t got = 77;
        ssize_t r;
        for (int i = 0; i < need - cut; i++) B_(need - cut)[i] = vfh_exp_[i];
        if (n < 0) r = Unpack(B_(need - cut), need - cut, fmt, &got, (void *)&p);
        else r = Unpack(B_(need - cut), need - cut, fmt, (void *)&p);
        if (cut) { PROVE(r < 0); PROVE(vf_live == 0); continue; }
        PROVE(r == need);
        if (n < 0) PROVE(got == cnt);
        if (cnt) {
            PROVE(p != 0 && vf_live == 1);
            for (int i = 0; i < cnt; i++) PROVE(p[i] == (char)(i < m ? s[i] : 0));
            PROVE(p[cnt] == 0);
            free(p);
        } else if (p) free(p);
        PROVE(vf_live == 0);
    }
    VF_END;
}

static void
vfh_scene_pad(int n, int order)
{
    char fmt[8];
    vf_heap_reset();
    int k = vfh_fmtof(fmt, order, 'x', n);
    fmt[k++] = 'B'; fmt[k] = 0;
    int cnt = n == 0 ? 1 : n > 0 ? n : ~n;
    vfh_elen = 0;
    if (n < 0) vfh_put(order == 2, cnt, 4);
    for (int i = 0; i < cnt; i++) vfh_exp_[vfh_elen++] = 0;
    int pads = vfh_elen;
    vfh_exp_[vfh_elen++] = 0xa5;
    int need = vfh_elen;
    for (int cap = need - 2; cap <= need + 1; cap++) {
        ssize_t r;
        uint8_t got = 0; uint32_t c = 77;
        if (cap < 0) continue;
        if (n < 0) r = Pack(B_(cap), cap, fmt, (uint32_t)cnt, (void *)0xa5);
        else r = Pack(B_(cap), cap, fmt, (void *)0xa5);
        if (cap < need) { PROVE(r < 0); }
        else { VF_reach(); PROVE(r == need); vfh_isout(cap); }
        for (int i = 0; i < cap && i < need; i++) B_(cap)[i] = vfh_exp_[i];
        if (n < 0) r = Unpack(B_(cap), cap, fmt, &c, (void *)&got);
        else r = Unpack(B_(cap), cap, fmt, (void *)&got);
        if (cap < need) PROVE(r < 0);
        else PROVE(r == need && got == 0xa5 && (n >= 0 || c == cnt));
    }
    (void)pads;
    VF_END;
}

/* several items, each where it belongs */
static void
vfh_scene_multi(void)
{
    uint16_t a[3] = { 0x1122, 0x3344, 0x5566 }, *pa = 0;
    uint64_t l = 0x0123456789abcdefUL, l2 = 0;
    uint32_t i = 0xdeadbeef, i2 = 0, n = 0;
    uint8_t  b[12] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }, b2[12] = { 0 };
    char *s = 0;
    static const uint8_t e[] = { 0, 0, 0, 3, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 'h', 'i', 0, 0xde, 0xad, 0xbe, 0xef, 0, 0,
                                 1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0x7f };
    vf_heap_reset();
    PROVE(Pack(B_(40), 40, "> * S z\tI 2x L 12b B", 3u, (void *)a, (void *)"hi", (void *)0xdeadbeef, (void *)l, (void *)b, (void *)0x7f) == 40);
    for (int k = 0; k < 40; k++) PROVE(B_(40)[k] == e[k]);
    uint8_t last = 0;
    PROVE(Unpack(B_(40), 40, "> * S z\tI 2x L 12b B", &n, (void *)&pa, (void *)&s, (void *)&i2, (void *)&l2, (void *)b2, (void *)&last) == 40);
    VF_reach();
    PROVE(n == 3 && i2 == i && l2 == l && last == 0x7f);
    for (int k = 0; k < 3; k++) PROVE(pa[k] == a[k]);
    for (int k = 0; k < 12; k++) PROVE(b2[k] == b[k]);
    PROVE(s[0] == 'h' && s[1] == 'i' && s[2] == 0);
    free(pa); free(s);
    PROVE(vf_live == 0);
    /* malformed formats */
    PROVE(Pack(B_(40), 40, "* *B", 1u, 1u, (void *)b) < 0 && Pack(B_(40), 40, "*", 1u) < 0 && Pack(B_(40), 40, "* 3B", 3u, (void *)b) < 0);
    PROVE(Pack(B_(40), 40, "3") < 0 && Pack(B_(40), 40, "B 12", (void *)1) < 0);
    PROVE(Unpack(B_(40), 40, "*", &n) < 0 && Unpack(B_(40), 40, "7") < 0);
    PROVE(Unpack(B_(40), 40, "B", (void *)0) < 0 && Unpack(B_(40), 40, "*B", (void *)0, (void *)0) < 0);
    PROVE(Pack(B_(40), 40, "4294967296B", (void *)b) == -E2BIG && Pack(B_(40), 40, "18446744073709551617B", (void *)b) == -E2BIG);
    PROVE(Pack(B_(40), 40, "4294967295L", (void *)b) == -ENOSPC && Pack(B_(40), 40, "2305843009213693953L", (void *)b) < 0);
    PROVE(Pack(B_(0), 0, "") == 0 && Pack(B_(0), 0, " ") == 0 && Pack(B_(0), 0, ">") == 0 && Unpack(B_(0), 0, "< ") == 0);
    PROVE(Pack(B_(40), 40, "*L", 0xffffffffu, (void *)b) == -ENOSPC);
    PROVE(vf_live == 0);
    VF_END;
}

/* every byte as a descriptor */
static void
vfh_scene_char(int c)
{
    char fmt[3] = { 'B', c, 0 };
    uint64_t v = 1;
    int known = c == ' ' || (c >= '\t' && c <= '\r') || c == 'x';
    for (int i = 0; i < NELEM(vfh_tc); i++) known |= c == vfh_tc[i];
    if (c == 'z' || c == 'Z') VF_END;
    ssize_t r = c == 'f' || c == 'D' ? Pack(B_(20), 20, fmt, (void *)1, 1.0) : Pack(B_(20), 20, fmt, (void *)1, (void *)1);
    VF_reach();
    if (c == '<' || c == '>' || !known) PROVE(r < 0); else PROVE(r >= 1);
    for (int i = 0; i < 20; i++) B_(20)[i] = 7;
    if (c == '*') VF_END;
    r = Unpack(B_(20), 20, fmt, (void *)&v, (void *)&v);
    if (c == '<' || c == '>' || !known) PROVE(r < 0); else PROVE(r >= 1);
    VF_END;
}

/* any bytes */
static void
vfh_scene_any(int n, int f, uint32_t count)
{
    static const char *const fmts[] = { "z", ">*Z", "*B", "<*I", "* x", "3Z Z", ">*L" };
    uint32_t c = 0;
    void *p = 0, *q = 0;
    vf_heap_reset();
    for (int i = 0; i < n; i++) B_(n)[i] = UBYTE();
    if (f != 0 && f != 5) for (int i = 0; i < n && i < 4; i++) B_(n)[i] = count >> 8 * (fmts[f][0] == '>' ? 3 - i : i);
    ssize_t r;
    if (f == 0) r = Unpack(B_(n), n, fmts[f], (void *)&p);
    else if (f == 5) r = Unpack(B_(n), n, fmts[f], (void *)&p, (void *)&q);
    else if (f == 4) r = Unpack(B_(n), n, fmts[f], &c);
    else r = Unpack(B_(n), n, fmts[f], &c, (void *)&p);
    VF_reach();
    PROVE(r <= n);
    free(p); free(q);
    PROVE(vf_live == 0);
    VF_END;
}

int main(void)
{
    static const int ns[] = { 0, 1, 2, 3, 12, ~0, ~1, ~2, ~5 };
    static const uint32_t counts[] = { 0, 1, 2, 3, 4, 5, 8, 255, 256, 0x01000000, 0x1fffffff, 0x20000000, 0x20000001, 0x40000001, 0x7fffffff, 0x80000000, 0xffffffff };
    int k_ = 0;
    for (int t = 0; t < NELEM(vfh_tc); t++)
        for (int o = 0; o < 3; o++)
            for (int i = 0; i < NELEM(ns); i++)
                for (int v = 0; v < (ns[i] == 0 || ns[i] == ~1 ? 3 : 1); v++)
                    if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_type(t, o, ns[i], v + t + o);
    for (int m = -1; m <= 5; m++)
        for (int n = -7; n <= 6; n++)
            if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_str(m, n, (m + n + 14) % 3, n & 1 ? 'z' : 'Z');
    for (int n = -4; n <= 12; n++) if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_pad(n, (n + 9) % 3);
    for (int c = -128; c < 128; c++) if (c && !(c >= '0' && c <= '9')) if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_char(c);
    vfh_scene_multi();
    for (int f = 0; f < 7; f++) for (int n = 0; n <= 7; n++)
        for (int c = 0; c < NELEM(counts); c++)
            if (c == 0 || (f != 0 && f != 5 && n >= 3)) if (k_++ % VF_NSHARD == VF_SHARD) vfh_scene_any(n, f, counts[c]);
    return 0;
}
