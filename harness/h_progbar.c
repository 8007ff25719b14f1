/* progress bar: what is written to the terminal, for every width */
#include "vf.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <inttypes.h>
#include "vf_printf.h"

#include <sys/ioctl.h>
#undef  TIOCGWINSZ
#define TIOCGWINSZ 0x5413

static int vf_tty, vf_cols, vf_ioctl_ok;
static char vf_out[640];
static int vf_outn, vf_writes, vf_clears;

static int vf_isatty(int fd) { return vf_tty && fd == 7; }
static int
vf_ioctl(int fd, unsigned long req, struct winsize *w)
{
    PROVE(fd == 7 && req == TIOCGWINSZ);
    if (!vf_ioctl_ok) return -1;
    w->ws_row = 25; w->ws_col = vf_cols; w->ws_xpixel = w->ws_ypixel = 0;
    return 0;
}
static ssize_t
vf_write(int fd, const void *b, size_t n)
{
    const char *s = b;
    PROVE(fd == 7 && vf_tty);
    if (n == 5 && s[0] == 0x1b && s[1] == '[' && s[2] == '2' && s[3] == 'K' && s[4] == '\r') {
        vf_clears++;
        return n;
    }
    PROVE(n < sizeof vf_out);
    for (size_t i = 0; i < n; i++) { PROVE(s[i] != 0 && s[i] != 0x1b); vf_out[i] = s[i]; }
    vf_out[n] = 0;
    vf_outn = n;
    vf_writes++;
    return n;
}
#define isatty  vf_isatty
#define ioctl   vf_ioctl
#define write   vf_write
#include "strcopy.c"
#include "humanize.c"
#include "progbar.c"

/* floor(100 * min(c, t) / t), without overflow */
static int
vf_percent(uint64_t c, uint64_t t)
{
    if (c >= t) return 100;
    uint64_t q = 0, r = 0;
    for (int b = 6; b >= 0; b--) {
        q = 2 * q;
        if (r >= t - r) { r = r - (t - r); q++; }
        else r = 2 * r;
        if (100 >> b & 1) {
            if (r >= t - c) { r = r - (t - c); q++; }
            else r += c;
        }
    }
    return (int)q;
}

/* out[i..] is the decimal number v; the place after it */
static int
vf_number(int i, uint64_t v)
{
    char d[24];
    int k = 0;
    do { d[k++] = '0' + v % 10; v /= 10; } while (v > 0);
    while (k > 0) {
        k--;
        PROVE(i < (int)sizeof vf_out && vf_out[i] == d[k]);
        i++;
    }
    return i;
}
static int
vf_blanks(int i)
{
    while (i < vf_outn && vf_out[i] == ' ') i++;
    return i;
}

/* the last line written: its bar has 'width' cells */
static int
vf_bar(int width, uint64_t cur, uint64_t tot, int human)
{
    int i = 0, n = 0, o = 0, pct = vf_percent(cur, tot), got = 0;
    if (!human) {
        i = vf_number(vf_blanks(i), cur);
        i = vf_blanks(i);
        PROVE(vf_out[i] == '/');
        i = vf_number(vf_blanks(i + 1), tot);
    }
    while (i < vf_outn && vf_out[i] != '[') i++;
    PROVE(vf_out[i] == '[');
    for (i++; i < vf_outn && vf_out[i] == 'o'; i++) o++;
    for (n = o; i < vf_outn && vf_out[i] == '.'; i++) n++;
    PROVE(vf_out[i] == ']' && vf_out[i+1] == ' ');
    for (i += 2; i < vf_outn && vf_out[i] >= '0' && vf_out[i] <= '9'; i++) got = 10 * got + vf_out[i] - '0';
    PROVE(vf_out[i] == '%' && i + 1 == vf_outn);
    PROVE(n == width);
    if (tot <= UINT64_MAX / 100) PROVE(got == pct);
    else                         PROVE(got == pct || got == pct + 1 || got == pct - 1);
    PROVE(o <= n && (got < 100 || o == n) && (got > 0 || o == 0));
    /* proportional: off by less than a cell, or the width of one percent */
    int x = 100 * o - got * n;
    if (x < 0) x = -x;
    PROVE(x < 100);
    return o;
}

static void
vf_scene(int w, uint64_t tot, int human)
{
    progress p;
    int width = 0, last = 0;
    uint64_t at[] = { 0, 1, tot / 100, tot / 3, tot / 2, tot - tot / 100, tot - 1, tot, tot + 1 };
    uint64_t cur = 0;

    vf_tty = 1; vf_ioctl_ok = w >= 0; vf_cols = w; vf_writes = vf_clears = 0;
    PROVE(progressbar_init(&p, 7, tot, human ? P_HUMAN : 0) == 0);
    PROVE(vf_writes == 0 && vf_clears == 0);
    width = p.width;
    PROVE(width >= 1 && width <= 50);
    if (w < 0 || w > 100) PROVE(width == 40 || width == 50);
    else if (w > 1)       PROVE(width == w / 2 || (width == 50 && w > 50));

    for (int i = 0; i < NELEM(at); i++) {
        if (at[i] < cur) continue;
        int before = vf_writes, c0 = vf_clears, moved = at[i] > cur;
        progressbar_update(&p, at[i] - cur);
        cur = at[i];
        PROVE(vf_writes <= before + 1);
        PROVE(vf_clears - c0 == (vf_writes > before && before > 0));      /* the previous line is erased first */
        if (i == 0) PROVE(vf_writes == 1);
        if (vf_writes == before && moved && !human) PROVE(0);          /* the count changed, so did the line */
        VF_reach();
        int o = vf_bar(width, cur, tot, human);
        PROVE(o >= last);
        last = o;
    }
    int b = vf_writes;
    progressbar_update(&p, 0);
    PROVE(vf_writes == b);
    progressbar_finish(&p, COIN(), 1);
    PROVE(vf_writes == b + 1 && vf_outn == 1 && vf_out[0] == '\n');
    VF_END;
}

/* no total: a count */
static void
vf_count(int w)
{
    progress p;
    static const uint64_t inc[] = { 0, 1, 9, 990, 1ULL << 33, 1ULL << 63 };
    uint64_t cur = 0;
    vf_tty = 1; vf_ioctl_ok = 1; vf_cols = w; vf_writes = vf_clears = 0;
    PROVE(progressbar_init(&p, 7, 0, 0) == 0);
    for (int i = 0; i < NELEM(inc); i++) {
        progressbar_update(&p, inc[i]);
        cur += inc[i];
        VF_reach();
        vf_number(vf_blanks(0), cur);
        PROVE(vf_writes == i + 1 && vf_clears == i);
    }
    VF_END;
}

/* not a terminal: nothing is ever written */
static void
vf_notty(int fd, int t, uint64_t tot)
{
    progress p;
    vf_tty = t; vf_ioctl_ok = 1; vf_cols = 80; vf_writes = vf_clears = 0;
    PROVE(progressbar_init(&p, fd, tot, 0) == 0);
    progressbar_update(&p, 3);
    progressbar_update(&p, 3);
    progressbar_finish(&p, 1, 1);
    VF_reach();
    PROVE(vf_writes == 0 && vf_clears == 0);
    VF_END;
}

int main(void)
{
    static const uint64_t tots[] = { 1, 2, 3, 7, 99, 100, 101, 1000, 12345, 1ULL << 32, 1ULL << 57, (1ULL << 58) + 1, 1ULL << 63, UINT64_MAX - 1 };
    int k = 0;
    for (int w = -1; w <= 110; w++)
        for (int i = 0; i < NELEM(tots); i++) {
            if ((w + i) % WSTEP) continue;
            if (k++ % VF_NSHARD == VF_SHARD) vf_scene(w, tots[i], i & 1);
            if (k++ % VF_NSHARD == VF_SHARD) vf_scene(w, tots[i], !(i & 1));
        }
    for (int w = 0; w < 3; w++) vf_count(w * 40);
    vf_notty(7, 0, 10); vf_notty(-1, 1, 10); vf_notty(7, 0, 0);
    return 0;
}
