/* hexdump: every line shows exactly its bytes, in order, in the format of hexdump -C. */
#include "vf.h"
#include <stdarg.h>
#undef feof
#undef ferror
#include "hexdump.c"

static char vfh_out[64 * 84];
static int vfh_nout, vfh_calls, vfh_failat;

static int
vfh_sink(void *ctx, const char *b, size_t n)
{
    PROVE(ctx == (void *)vfh_out);
    if (++vfh_calls == vfh_failat) return -71;
    PROVE(n < 128 && vfh_nout + n < sizeof vfh_out);
    for (size_t i = 0; i < n; i++) vfh_out[vfh_nout + i] = b[i];
    vfh_nout += n;
    return 0;
}

static int
vfh_hexval(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    PROVE(c >= 'a' && c <= 'f');
    return c - 'a' + 10;
}

static char vfh_ishex[256], vfh_isshown[256];

/*
 * n bytes: byte i is base + step*i (so all differ in a line), or any
 * byte when step < 0.
 */
static void
vfh_scene(int n, int base, int step, int fail)
{
    unsigned char m0[MAXN], *b = &m0[MAXN - n];
    hex_dumper d;

    for (int i = 0; i < n; i++) b[i] = step < 0 ? UBYTE() : (unsigned char)(base + step * i);
    vfh_nout = 0; vfh_calls = 0; vfh_failat = fail;
    hex_dump_init(&d, vfh_sink, vfh_out, HEX_DUMP_OFFSET);
    int r = hex_dump_write(&d, b, n);
    int lines = (n + 15) / 16;
    if (fail && fail <= lines) {
        VF_reach();
        PROVE(r == -71 && vfh_calls == fail);
        VF_END;
    }
    PROVE(r == 0);
    PROVE(hex_dump_close(&d) == 0);
    PROVE(vfh_calls == lines);
    VF_reach();
    int o = 0;
    for (int l = 0; l < lines; l++) {
        size_t off = 0;
        for (int i = 0; i < 16; i++) off = off * 16 + vfh_hexval(vfh_out[o + i]);
        PROVE(off == (size_t)l * 16);
        PROVE(vfh_out[o + 16] == ' ' && vfh_out[o + 17] == ' ');
        int m = n - l * 16 > 16 ? 16 : n - l * 16;
        for (int i = 0; i < 16; i++) {
            int c = o + 18 + i * 3 + (i > 7);
            if (i < m) {
                if (step >= 0) PROVE(vfh_hexval(vfh_out[c]) * 16 + vfh_hexval(vfh_out[c + 1]) == b[l * 16 + i]);
                else PROVE(vfh_ishex[(unsigned char)vfh_out[c]] && vfh_ishex[(unsigned char)vfh_out[c + 1]]);
            } else PROVE(vfh_out[c] == ' ' && vfh_out[c + 1] == ' ');
            PROVE(vfh_out[c + 2] == ' ');
        }
        int a = o + 18 + 49;
        int bar = a;
        PROVE(vfh_out[a] == ' ' || vfh_out[a] == '|');
        while (bar < a + 4 && vfh_out[bar] == ' ') bar++;
        PROVE(vfh_out[bar] == '|');
        for (int i = 0; i < m; i++) {
            unsigned char v = vfh_out[bar + 1 + i];
            if (step >= 0) {
                unsigned char x = b[l * 16 + i];
                PROVE(v == (x >= 32 && x < 127 ? x : '.'));
            } else PROVE(vfh_isshown[v]);
        }
        PROVE(vfh_out[bar + 1 + m] == '|' && vfh_out[bar + 2 + m] == '\n');
        o = bar + 3 + m;
    }
    PROVE(o == vfh_nout);
    VF_END;
}

/* HEX_DUMP_PTR: the addresses of the bytes; memory at [0x10000,0x1ffff] is any bytes */
static void
vfh_scene_ptr(int n, uintptr_t addr)
{
    hex_dumper d;
    vfh_nout = 0; vfh_calls = 0; vfh_failat = 0;
    hex_dump_init(&d, vfh_sink, vfh_out, HEX_DUMP_PTR);
    PROVE(hex_dump_write(&d, (const void *)addr, n) == 0);
    PROVE(vfh_calls == (n + 15) / 16);
    VF_reach();
    int o = 0;
    for (int l = 0; l < vfh_calls; l++) {
        uintptr_t off = 0;
        for (int i = 0; i < 16; i++) off = off * 16 + vfh_hexval(vfh_out[o + i]);
        PROVE(off == addr + l * 16);
        while (vfh_out[o] != '\n') o++;
        o++;
    }
    VF_END;
}

/* fhexdump: a short write is an error, and nothing else is */
static int vfh_fw_fail, vfh_fw_calls;
size_t
fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    PROVE(sz * n > 0 && sz * n < 128);
    for (size_t i = 0; i < sz * n; i++) { char c = ((const char *)p)[i]; PROVE(c == c); }
    if (++vfh_fw_calls == vfh_fw_fail) { errno = NONDET(0, 1) ? ENOSPC : 0; return 0; }
    return n;
}
int feof(FILE *f)   { return 0; }
int ferror(FILE *f) { return vfh_fw_calls >= vfh_fw_fail && vfh_fw_fail; }

static void
vfh_scene_file(int n, int fail)
{
    unsigned char b[80];
    FILE f;
    vf_anybuf(b, n);
    vfh_fw_fail = fail; vfh_fw_calls = 0;
    int r = fhexdump(&f, b, n);
    VF_reach();
    if (fail && fail <= (n + 15) / 16) PROVE(r < 0);
    else                               PROVE(r == 0 && vfh_fw_calls == (n + 15) / 16);
    VF_END;
}

int main(void)
{
    for (int i = 0; i < 256; i++) {
        vfh_ishex[i] = (i >= '0' && i <= '9') || (i >= 'a' && i <= 'f');
        vfh_isshown[i] = i >= 32 && i < 127;
    }
    for (int v = VF_SHARD; v < 256; v += VF_NSHARD) vfh_scene(16, v, 17, 0);
    for (int n = VF_SHARD; n <= MAXN; n += VF_NSHARD) {
        vfh_scene(n, 0, n % 2 ? 3 : 7, 0);
        vfh_scene(n, 0, -1, 0);
        for (int f = 1; f <= (n + 15) / 16; f++) vfh_scene(n, 1, 1, f);
    }
    vfh_scene_ptr(20, 0x10000); vfh_scene_ptr(33, 0x12fed);
    for (int n = 0; n <= 40; n += 8) for (int f = 0; f < 4; f++) vfh_scene_file(n, f);
    return 0;
}
