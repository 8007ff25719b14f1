/* buf.h: what was appended is there, in order, and capacity always covers it. */
#include "vf.h"
#define HEAP_SIZE 1100
#define HEAP_SLOTS 2
#include "vf_heap.h"
#include "fast/buf.h"

/* any buffer of n bytes (values tagged by place) and capacity c, then one operation adding m */
static void
vfh_scene(size_t c, size_t n, size_t m, int op)
{
    fast_buf b;
    uint8_t add[201] = { 0 }, *more = &add[200 - m];
    vf_heap_reset();
    PROVE(fast_buf_init(&b, c) == &b);
    PROVE(fast_buf_len(&b) == 0 && fast_buf_cap(&b) >= (c ? c : 1) && fast_buf_ptr(&b) == b.buf);
    if (b.cap < n) VF_fail();
    for (size_t i = 0; i < n; i++) b.buf[i] = i * 3;
    PROVE(fast_buf_advance(&b, n) == &b && fast_buf_len(&b) == n);
    for (size_t i = 0; i < m; i++) more[i] = 128 + i;
    size_t e = n + m;
    switch (op) {
        case 0: PROVE(fast_buf_append_buf(&b, more, m) == &b); break;
        case 1: for (size_t i = 0; i < m; i++) PROVE(fast_buf_append_byte(&b, more[i]) == &b); break;
        case 2: fast_buf_grow(&b, m); PROVE(fast_buf_cap(&b) >= n + m); for (size_t i = 0; i < m; i++) b.buf[n + i] = more[i]; fast_buf_advance(&b, m); break;
        case 3: fast_buf_reserve(&b, m); PROVE(fast_buf_cap(&b) >= m && fast_buf_cap(&b) >= n); e = n; break;
        case 4: PROVE(fast_buf_reset(&b) == &b); e = 0; break;
        case 5: fast_buf_fini(&b); PROVE(vf_live == 0 && b.size == 0 && b.cap == 0); e = 0; fast_buf_append_buf(&b, more, m); PROVE(fast_buf_len(&b) == m && b.cap >= m); for (size_t i = 0; i < m; i++) PROVE(b.buf[i] == more[i]); b.size = 0; break;
    }
    VF_reach();
    PROVE(fast_buf_len(&b) == e && fast_buf_cap(&b) >= e);
    for (size_t i = 0; i < e; i++) PROVE(fast_buf_ptr(&b)[i] == (i < n ? (uint8_t)(i * 3) : (uint8_t)(128 + i - n)));
    /* all of the capacity is there */
    for (size_t i = e; i < b.cap; i += b.cap > 64 ? 31 : 1) b.buf[i] = 0;
    if (b.cap) b.buf[b.cap - 1] = 0;
    PROVE(vf_live == 1);
    fast_buf_fini(&b);
    fast_buf_fini(&b);
    PROVE(vf_live == 0);
    VF_END;
}
int main(void)
{
    static const size_t caps[] = { 1, 2, 5, 0, 33 };
    static const size_t adds[] = { 0, 1, 2, 8, 17, 130 };
    for (int op = VF_SHARD; op < 6; op += VF_NSHARD)
        for (int c = 0; c < NELEM(caps); c++) {
            size_t cap = caps[c] ? caps[c] : 128;
            for (size_t n = 0; n <= cap; n += n + 3 < cap && n > 1 ? cap / 2 : 1)
                for (int a = 0; a < NELEM(adds); a++) if (!(op == 1 && adds[a] > 17)) vfh_scene(caps[c], n, adds[a], op);
        }
    return 0;
}
