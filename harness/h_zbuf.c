/* zlib wrappers: what the sink receives, for any appetite of the sink and any behaviour of the coder */
#include "vf.h"
#include "zlib.h"

#define MAXS    4
static unsigned char vf_room[MAXS];             /* the output buffer is the last S bytes of it: one more is out of bounds */
static unsigned char vf_stream[32], vf_chunk[8];
static int vf_S, vf_len, vf_got, vf_calls, vf_failat, vf_failval, vf_appetite, vf_refused;
static char vf_cookie;

/* the coder */
static unsigned char vf_q[32];
static int vf_qh, vf_qt, vf_hold, vf_trail, vf_trailed, vf_done, vf_inited, vf_ended, vf_dcalls, vf_derrat, vf_coded, vf_lev, vf_wbits, vf_initerr;
static int vf_expand, vf_tokens;

static int
vf_emit(z_streamp zs, int keep)
{
    int n = 0;
    while (zs->avail_out > 0 && vf_qt - vf_qh > keep) {
        *zs->next_out++ = vf_q[vf_qh++];
        zs->avail_out--; zs->total_out++;
        n++;
    }
    return n;
}
int deflateInit2(z_streamp zs, int lev, int method, int wbits, int mem, int strat)
{
    PROVE(method == Z_DEFLATED && lev >= 1 && lev <= 9 && wbits <= 15 && mem >= 1 && mem <= 9);
    PROVE(zs->zalloc == 0 && zs->zfree == 0);
    vf_lev = lev; vf_wbits = wbits;
    if (vf_initerr) return Z_MEM_ERROR;
    vf_inited++;
    return Z_OK;
}
int inflateInit2(z_streamp zs, int wbits)
{
    PROVE(wbits >= 1 && wbits <= 15);
    PROVE(zs->zalloc == 0 && zs->zfree == 0);
    vf_wbits = wbits;
    if (vf_initerr) return Z_MEM_ERROR;
    vf_inited++;
    return Z_OK;
}
int deflate(z_streamp zs, int flush)
{
    int n = 0, m;
    PROVE(vf_inited == 1 && !vf_ended && (flush == Z_NO_FLUSH || flush == Z_FINISH));
    if (++vf_dcalls == vf_derrat) return Z_STREAM_ERROR;
    do {
        m = 0;
        while (zs->avail_in > 0 && vf_qt - vf_qh <= vf_hold) {
            vf_q[vf_qt++] = *zs->next_in++;
            zs->avail_in--; zs->total_in++;
            vf_coded++;
            m++;
        }
        m += vf_emit(zs, flush == Z_FINISH ? 0 : vf_hold);
        n += m;
    } while (m > 0);
    if (flush == Z_FINISH && zs->avail_in == 0) {
        if (!vf_trailed) {
            vf_trailed = 1;
            for (int i = 0; i < vf_trail; i++) vf_q[vf_qt++] = 'x' + i;
        }
        n += vf_emit(zs, 0);
        if (vf_qh == vf_qt) { vf_done = 1; return Z_STREAM_END; }
    }
    return n ? Z_OK : Z_BUF_ERROR;
}
int inflate(z_streamp zs, int flush)
{
    int n = 0, m;
    PROVE(vf_inited == 1 && !vf_ended && flush == Z_NO_FLUSH);
    if (++vf_dcalls == vf_derrat) return Z_DATA_ERROR;
    if (vf_done) return Z_STREAM_END;
    do {
        m = vf_emit(zs, 0);
        if (vf_qh == vf_qt && zs->avail_in > 0) {
            unsigned char c = *zs->next_in++;
            zs->avail_in--; zs->total_in++;
            m++;
            if (c == '.') { vf_done = 1; return Z_STREAM_END; }
            for (int i = 0; i < vf_expand; i++) vf_q[vf_qt++] = 'A' + vf_tokens * vf_expand + i;
            vf_tokens++;
        }
        n += m;
    } while (m > 0);
    return n ? Z_OK : Z_BUF_ERROR;
}
int deflateEnd(z_streamp zs) { PROVE(vf_inited == 1 && !vf_ended && zs != 0); vf_ended = 1; return Z_OK; }
int inflateEnd(z_streamp zs) { PROVE(vf_inited == 1 && !vf_ended && zs != 0); vf_ended = 1; return Z_OK; }

#include "zbuf_c.c"
#include "zbuf_unc.c"

/* takes what it likes of it; each byte must be the next of the stream */
static int
vf_sink(void *o, void *b, int len)
{
    unsigned char *s = b;
    PROVE(o == &vf_cookie && len > 0);
    vf_calls++;
    if (vf_failat && vf_calls == vf_failat) { vf_refused++; return vf_failval; }
    int used = vf_appetite == 0 ? len : vf_appetite == 1 ? 1 : (len + 1) / 2;
    for (int i = 0; i < len; i++) PROVE(vf_got + i < vf_len && s[i] == vf_stream[vf_got + i]);
    vf_got += used;
    return used;
}

static void
vf_begin(z_buf_context *zc, int S)
{
    vf_S = S;
    vf_got = vf_calls = vf_refused = vf_qh = vf_qt = vf_trailed = vf_done = vf_inited = vf_ended = vf_dcalls = vf_coded = vf_tokens = 0;
    for (int i = 0; i < MAXS; i++) vf_room[i] = '#';
    z_buf_context_init(zc, vf_room + MAXS - S, S, vf_sink, &vf_cookie);
}

/* n bytes in chunks of c, then the end; the k-th call of the sink (or of the coder) fails */
static void
vf_pack(int S, int n, int c, int hold, int trail, int app, int failat, int failval, int derrat)
{
    z_buf_context zc;
    int r = Z_OK, in = 0;

    vf_hold = hold; vf_trail = trail; vf_appetite = app; vf_failat = failat; vf_failval = failval; vf_derrat = derrat;
    for (int i = 0; i < n; i++) vf_stream[i] = 'A' + i;
    for (int i = 0; i < trail; i++) vf_stream[n + i] = 'x' + i;
    vf_len = n + trail;
    vf_begin(&zc, S);
    if (z_buf_compress_init(&zc, 6, 15) != Z_OK) { VF_fail(); VF_END; }

    while (in < n && r == Z_OK) {
        int m = c < n - in ? c : n - in;
        for (int i = 0; i < m; i++) vf_chunk[i] = 'A' + in + i;
        r = z_buf_compress(&zc, vf_chunk, m);
        in += m;
        PROVE((r == Z_OK) == (!vf_refused && !(derrat && vf_dcalls >= derrat)));
        if (r == Z_OK) {
            PROVE(vf_coded == in && zc.z.total_in == in);
            for (int i = 0; i < 8; i++) vf_chunk[i] = '?';      /* the caller reads the next chunk into it */
        }
    }
    if (derrat && vf_dcalls >= derrat) { PROVE(r == Z_STREAM_ERROR); VF_END; }
    /* after a refusal: what was given so far, and no more */
    if (r != Z_OK) { vf_len = in + trail; for (int i = 0; i < trail; i++) vf_stream[in + i] = 'x' + i; }
    int was = vf_refused;
    r = z_buf_compress_end(&zc);
    if (vf_refused > was || (derrat && vf_dcalls >= derrat)) {
        PROVE(r != Z_OK);
        VF_END;
    }
    VF_reach();
    PROVE(r == Z_OK && vf_got == vf_len && vf_done && vf_ended);
    PROVE(zc.z.total_out == vf_len);
    VF_END;
}

/* n tokens, the end mark, g bytes after it */
static void
vf_unpack(int S, int n, int c, int expand, int mark, int g, int app, int failat, int failval, int derrat)
{
    z_buf_context zc;
    int r = Z_OK, in = 0, all = n + mark + g;

    vf_expand = expand; vf_appetite = app; vf_failat = failat; vf_failval = failval; vf_derrat = derrat;
    for (int i = 0; i < n * expand; i++) vf_stream[i] = 'A' + i;
    vf_len = n * expand;
    vf_begin(&zc, S);
    if (z_buf_uncompress_init(&zc, 15) != Z_OK) { VF_fail(); VF_END; }

    while (in < all && r == Z_OK) {
        int m = c < all - in ? c : all - in;
        for (int i = 0; i < m; i++) vf_chunk[i] = mark && in + i == n ? '.' : 't';
        r = z_buf_uncompress(&zc, vf_chunk, m);
        in += m;
        if (vf_refused || (derrat && vf_dcalls >= derrat)) { PROVE(r != Z_OK && r != Z_STREAM_END); }
        else if (vf_done) PROVE(r == Z_STREAM_END);
        else {
            PROVE(r == Z_OK && zc.z.total_in == in);
            for (int i = 0; i < 8; i++) vf_chunk[i] = '?';
        }
    }
    if (derrat && vf_dcalls >= derrat) { PROVE(r == Z_DATA_ERROR); VF_END; }
    int was = vf_refused;
    r = z_buf_uncompress_end(&zc);
    if (vf_refused > was) { PROVE(r != Z_OK); VF_END; }
    if (derrat && vf_dcalls >= derrat) { VF_END; }
    if (vf_done) {
        VF_reach();
        PROVE(r == Z_OK && vf_got == vf_len && vf_ended);
    }
    VF_END;
}

static int vf_k;
static void
vf_packs(int S, int n, int c)
{
    for (int h = 0; h < 4; h++)
        for (int app = 0; app < 3; app++) {
            int hold = h & 1 ? 2 : 0, trail = h & 2 ? 3 : 0;
            vf_pack(S, n, c, hold, trail, app, 0, 0, 0);
            for (int k = 1; k <= KMAX; k++) {
                vf_pack(S, n, c, hold, trail, app, k, 0, 0);
                vf_pack(S, n, c, hold, trail, app, k, -1, 0);
                if (app == 0) vf_pack(S, n, c, hold, trail, app, 0, 0, k);
            }
        }
}
static void
vf_unpacks(int S, int n, int c)
{
    for (int e = 1; e < 4; e++)
        for (int app = 0; app < 3; app++)
            for (int g = -1; g < 3; g++) {
                int mark = g >= 0, gg = mark ? g : 0;
                vf_unpack(S, n, c, e, mark, gg, app, 0, 0, 0);
                for (int k = 1; k <= KMAX; k++) {
                    vf_unpack(S, n, c, e, mark, gg, app, k, 0, 0);
                    vf_unpack(S, n, c, e, mark, gg, app, k, -1, 0);
                    if (app == 0) vf_unpack(S, n, c, e, mark, gg, app, 0, 0, k);
                }
            }
}
static void
vf_inits(void)
{
    z_buf_context zc;
    for (int f = 0; f < 2; f++)
        for (int v = -3; v < 20; v++) {
            vf_initerr = f;
            vf_begin(&zc, 2);
            PROVE(z_buf_compress_init(&zc, v, 15) == (f ? Z_MEM_ERROR : Z_OK));
            if (v >= 1 && v <= 9) PROVE(vf_lev == v);
            vf_begin(&zc, 2);
            PROVE(z_buf_compress_init(&zc, 6, v) == (f ? Z_MEM_ERROR : Z_OK));
            if (v >= 8 && v <= 15) PROVE(vf_wbits == v);
            vf_begin(&zc, 2);
            PROVE(z_buf_uncompress_init(&zc, v) == (f ? Z_MEM_ERROR : Z_OK));
            if (v >= 8 && v <= 15) PROVE(vf_wbits == v);
        }
    vf_initerr = 0;
}

int main(void)
{
    if (VF_SHARD == 0) vf_inits();
    for (int S = 1; S <= MAXS; S++)
        for (int n = 0; n <= 6; n++)
            for (int c = 1; c <= 5; c++)
                if ((ALL || ((n < 2 || n == 3 || n == 6) && c != 3 && c != 4 && (c == 1 || c <= n + 2))) &&
                     vf_k++ % VF_NSHARD == VF_SHARD) {
                    vf_packs(S, n, c);
                    vf_unpacks(S, n, c);
                }
    return 0;
}
