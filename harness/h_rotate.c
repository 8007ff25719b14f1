/*
 * Log rotation, against a directory model. Names are mapped to slots: the file
 * itself, and copy k. Every file has an identity, so which one is where shows.
 * What must survive is checked after every call that changes the directory:
 * that is every point at which the process may die.
 */
#include "vf.h"
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#undef  PATH_MAX
#define PATH_MAX    16
#include "vf_printf.h"

#define MAXK        (4 + 102)
#define NONE        (-1)
#define LIVE        0               /* slot 0: the file; slot k+1: copy k */
static char vf_F[PATH_MAX + 4];        /* its name */
static int  vf_flen;
static short vf_slots[MAXK + 2];        /* identity of the file there */
static char  vf_dir[MAXK + 2];         /* it is a directory */
static long long vf_fsize;
static int  vf_keep, vf_keepmask, vf_nkeep;  /* identities below it, in the mask, must survive, in order */
static int  vf_sys, vf_fail_at, vf_failed, vf_unlinkfail, vf_moved;

#define SYS()   if (vf_sys++ == vf_fail_at) { vf_failed = 1; errno = vf_errno = VF_ERR(vf_sys); return -1; }

static int
vf_slot(const char *p)
{
    int n = 0;
    while (p[n]) n++;
    if (n >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
    for (int i = 0; i < vf_flen; i++) if (i >= n || p[i] != vf_F[i]) { VF_fail(); return -1; }
    if (n == vf_flen) return LIVE;
    int i = vf_flen, k = 0;
    if (p[i++] != '.' || i >= n) { VF_fail(); return -1; }
    if (p[i] == '0' && i + 1 < n) { VF_fail(); return -1; }
    for (; i < n; i++) {
        if (p[i] < '0' || p[i] > '9') { VF_fail(); return -1; }
        k = k * 10 + p[i] - '0';
    }
    if (k >= MAXK) return MAXK + 1;         /* never there */
    return k + 1;
}

/* all files to be kept are there, once, newest first */
static void
vf_intact(void)
{
    int want = 0;
    for (int i = 0; i < 8; i++) {
        if (vf_slots[i] == NONE || vf_slots[i] >= vf_keep) continue;
        while (want < vf_keep && !(vf_keepmask >> want & 1)) want++;
        PROVE(vf_slots[i] == want);
        want++;
    }
    while (want < vf_keep && !(vf_keepmask >> want & 1)) want++;
    PROVE(want == vf_keep);
}

static int
vf_stat(const char *p, struct stat *st)
{
    int k = vf_slot(p);
    if (k < 0) return -1;
    SYS();
    if (vf_slots[k] == NONE) { errno = ENOENT; return -1; }
    st->st_mode = vf_dir[k] ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = k == LIVE ? vf_fsize : 5;
    return 0;
}
static int
vf_access(const char *p, int m)
{
    int k = vf_slot(p);
    if (k < 0) return -1;
    SYS();
    if (vf_slots[k] == NONE) { errno = ENOENT; return -1; }
    return 0;
}
static int
vf_rename(const char *a, const char *b)
{
    int i = vf_slot(a), j = vf_slot(b);
    if (i < 0 || j < 0) return -1;
    SYS();
    if (vf_slots[i] == NONE) { errno = ENOENT; return -1; }
    PROVE(!vf_dir[i]);
    if (vf_dir[j]) { errno = EISDIR; vf_failed = 1; return -1; }
    vf_slots[j] = vf_slots[i]; vf_slots[i] = NONE;
    vf_moved = 1;
    vf_intact();
    return 0;
}
static int
vf_unlink(const char *p)
{
    int i = vf_slot(p);
    if (i < 0) return -1;
    if (vf_slots[i] == NONE) { errno = ENOENT; return -1; }
    if (vf_dir[i]) { errno = EISDIR; return -1; }
    if (vf_sys++ == vf_fail_at) { vf_unlinkfail = 1; errno = vf_errno = VF_ERR(vf_sys); return -1; }
    vf_slots[i] = NONE;
    vf_moved = 1;
    vf_intact();
    return 0;
}
#define stat(p, s)  vf_stat(p, s)
#define lstat       vf_stat
#define access      vf_access
#define rename      vf_rename
#define unlink      vf_unlink
#define remove      vf_unlink
#include "rotatefile.c"

/* len: of the name; live/isdir: the file; mask: copies 0 .. n+1 ; far: also copy n+99 */
static void
vf_setup(int len, int n, int mask, int far, int dirat, int fail)
{
    vf_flen = len;
    for (int i = 0; i < len; i++) vf_F[i] = 'a' + i;
    vf_F[len] = 0;
    for (int i = 0; i < MAXK + 2; i++) { vf_slots[i] = NONE; vf_dir[i] = 0; }
    vf_keep = n; vf_keepmask = 0;
    for (int i = 0; i < n + 3; i++) if (mask >> i & 1) {
        vf_slots[i] = i;
        if (i < n) vf_keepmask |= 1 << i;
    }
    if (far) vf_slots[n + 100] = n + 100;
    if (dirat >= 0) { vf_slots[dirat] = dirat; vf_dir[dirat] = 1; if (dirat < n) vf_keepmask |= 1 << dirat; }
    vf_sys = vf_failed = vf_unlinkfail = vf_moved = 0; vf_fail_at = fail;
    vf_fsize = 7;
    vf_turn++;
}

static void
vf_scene(int len, int n, int mask, int far, int fail)
{
    vf_setup(len, n, mask, far, -1, fail);
    int r = rotate_filename(vf_F, n, 0);

    vf_intact();
    if (len + 2 >= PATH_MAX) {          /* no name left for even one copy */
        VF_reach();
        PROVE(r == -ENAMETOOLONG && vf_slots[LIVE] == (mask & 1 ? 0 : NONE));
        VF_END;
    }
    if (vf_failed) {
        VF_reach();
        PROVE(r == -vf_errno);
        VF_END;
    }
    VF_reach();
    PROVE(r == 0);
    PROVE(vf_slots[LIVE] == NONE);
    if (mask & 1) PROVE(vf_slots[1] == 0);
    for (int i = 1; i < n + 1; i++)     /* at most one step older, nothing else */
        PROVE(vf_slots[i] == NONE || vf_slots[i] == i || vf_slots[i] == i - 1);
    if (!vf_unlinkfail && len + 4 < PATH_MAX)
        for (int i = n + 1; i < n + 101; i++) PROVE(vf_slots[i] == NONE);
    VF_END;
}

/* the file, or a copy that would have to move, is not a regular file */
static void
vf_odd(int n, int mask, int dirat)
{
    vf_setup(3, n, mask, 0, dirat, -1);
    int r = rotate_filename(vf_F, n, 0);
    vf_intact();
    PROVE(vf_slots[dirat] == dirat);
    if (dirat < n) { VF_reach(); PROVE(r == -EINVAL); }
    else if (dirat == n) PROVE(r == 0 || r < 0);
    else PROVE(r == 0);
    VF_END;
}

static void
vf_bysize(unsigned long long mb, long long lo, long long hi, int rot, int live, int fail)
{
    vf_setup(3, 2, live ? 3 : 2, 0, -1, fail);
    vf_fsize = Frama_C_long_long_interval(lo, hi);
    if (live == 2) { vf_dir[LIVE] = 1; }
    int r = rotate_filename_by_size(vf_F, 2, mb, 0);
    vf_intact();
    if (vf_failed)         { VF_reach(); PROVE(r == -vf_errno); }
    else if (!live)     { VF_reach(); PROVE(r == 0 && vf_slots[1] == 1 && !vf_moved); }
    else if (live == 2) { VF_reach(); PROVE(r == -EINVAL && !vf_moved); }
    else if (rot)       { VF_reach(); PROVE(r == 0 && vf_slots[LIVE] == NONE && vf_slots[1] == 0 && vf_slots[2] == 1); }
    else                { VF_reach(); PROVE(r == 0 && !vf_moved); }
    VF_END;
}

#define MiB 1048576LL
int main(void)
{
    int k = 0;
#define MINE (k++ % VF_NSHARD == VF_SHARD)
    for (int n = 1; n <= NSAVED; n++)
        for (int mask = 0; mask < 1 << (n + 3); mask++)
            for (int far = 0; far < 2; far++) {
                if (far != (mask >> (n + 1) & 1)) continue;
                for (int fail = -1; fail < 2 * n + 5; fail++)
                    if (MINE) vf_scene(3, n, mask, far, fail);
            }
    for (int len = PATH_MAX - 7; len < PATH_MAX; len++)
        for (int n = 1; n <= 2; n++)
            for (int far = 0; far < 2; far++)
                if (MINE) vf_scene(len, n, 31 >> (3 - n), far && len + 4 < PATH_MAX, -1);
    for (int n = 1; n <= NSAVED; n++)
        for (int d = 0; d < n + 2; d++)
            for (int m = 0; m < 4; m++) if (MINE) vf_odd(n, m == 0 ? 0 : (1 << (n + m - 1)) - 1, d);

    static const unsigned long long mbs[] = { 0, 1, 2, 5, 1000, 1ULL << 30 };
    for (int i = 0; i < NELEM(mbs); i++) {
        long long lim = mbs[i] * MiB;
        if (MINE) vf_bysize(mbs[i], 0, lim, 0, 1, -1);
        if (MINE) vf_bysize(mbs[i], lim, lim, 0, 1, -1);
        if (MINE) vf_bysize(mbs[i], lim + 1, lim + 1, 1, 1, -1);
        if (MINE) vf_bysize(mbs[i], lim + 1, LLONG_MAX, 1, 1, -1);
        if (MINE) vf_bysize(mbs[i], 0, LLONG_MAX, 0, 0, -1);
        if (MINE) vf_bysize(mbs[i], 0, LLONG_MAX, 0, 2, -1);
        for (int f = 0; f < 6; f++) if (MINE) vf_bysize(mbs[i], lim + 1, LLONG_MAX, 1, 1, f);
    }
    if (MINE) vf_bysize(1ULL << 43, 0, LLONG_MAX, 0, 1, -1);
    if (MINE) vf_bysize(~0ULL, 0, LLONG_MAX, 0, 1, -1);
    return 0;
}
