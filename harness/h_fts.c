/* walking a tree: a model file system, and the walk stepped beside a reference */
#define HEAP_SLOTS  32
#define HEAP_SIZE   512
#include "vf.h"
#include "vf_heap.h"
#include <sys/param.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>

/* ---- the files ---- */
enum { REG, DIRT, LNK };
static const struct { const char *name; int par, type, tgt, dev, unr; } vf_n[] = {
    { "",    0, DIRT, 0, 1, 0 },            /* 0  / */
    { "w",   0, DIRT, 0, 1, 0 },            /* 1  /w, where we are */
    { "r",   1, DIRT, 0, 1, 0 },
    { "b",   2, REG,  0, 1, 0 },
    { "d",   2, DIRT, 0, 1, 0 },
    { "x",   4, REG,  0, 1, 0 },
    { "e",   4, DIRT, 0, 1, 0 },            /* 6  empty */
    { "a",   2, REG,  0, 1, 0 },
    { "s",   1, DIRT, 0, 1, 0 },            /* 8  links */
    { "lf",  8, LNK,  3, 1, 0 },
    { "ld",  8, LNK,  4, 1, 0 },
    { "dead",8, LNK, -1, 1, 0 },
    { "le",  8, LNK,  6, 1, 0 },
    { "m",   8, REG,  0, 1, 0 },
    { "c",   1, DIRT, 0, 1, 0 },            /* 14 cycles */
    { "k",  14, DIRT, 0, 1, 0 },
    { "up", 15, LNK, 14, 1, 0 },
    { "me", 15, LNK, 15, 1, 0 },
    { "f",  15, REG,  0, 1, 0 },
    { "p",   1, DIRT, 0, 1, 0 },            /* 19 forbidden, another device */
    { "u",  19, DIRT, 0, 1, 1 },
    { "o",  19, DIRT, 0, 2, 0 },
    { "q",  21, REG,  0, 2, 0 },
    { "n",  19, REG,  0, 1, 0 },
    { "g",   1, DIRT, 0, 1, 0 },            /* 24 long names */
    { "h",  24, DIRT, 0, 1, 0 },
    { "longname123456",     25, DIRT, 0, 1, 0 },
    { "verylongname1234567890",   26, REG, 0, 1, 0 },
    { "y",  26, REG,  0, 1, 0 },
    { "t",  24, REG,  0, 1, 0 },
    { "lr",  1, LNK,  2, 1, 0 },            /* 30 */
    { "ee",  1, DIRT, 0, 1, 0 },
    { "ff",  1, REG,  0, 1, 0 },
    { "dl",  1, LNK, -1, 1, 0 },
};
#define NN  NELEM(vf_n)
static int vf_cwd, vf_open_fds, vf_open_dirs, vf_calls, vf_sysfail, vf_sysfailed, vf_btrfs, vf_dtype;
static int vf_fd[16];           /* node + 1 */
static DIR vf_dirs[4];
static struct { int node, pos, fd; } vf_dst[4];
static struct dirent vf_de;

static int
vf_child(int dir, int after)
{
    for (int i = after + 1; i < NN; i++) if (vf_n[i].par == dir && i > 0) return i;
    return -1;
}
static int vf_target(int n) { while (n >= 0 && vf_n[n].type == LNK) n = vf_n[n].tgt; return n; }

/* the file a path names; follow: the last component too. -1: none */
static int
vf_walk(const char *s, int follow)
{
    int n = *s == '/' ? 0 : vf_cwd;
    if (!*s) return -1;
    while (*s == '/') s++;
    while (*s) {
        n = vf_target(n);
        if (n < 0 || vf_n[n].type != DIRT) return -1;
        int l = 0;
        while (s[l] && s[l] != '/') l++;
        if (l == 2 && s[0] == '.' && s[1] == '.') n = vf_n[n].par;
        else if (l != 1 || s[0] != '.') {
            int c = vf_child(n, 0);
            while (c >= 0 && !(strncmp(vf_n[c].name, s, l) == 0 && vf_n[c].name[l] == 0)) c = vf_child(n, c);
            if (c < 0) return -1;
            n = c;
        }
        s += l;
        if (*s == '/') {
            while (*s == '/') s++;
            n = vf_target(n);
            if (n < 0 || vf_n[n].type != DIRT) return -1;
        }
    }
    if (follow) n = vf_target(n);
    return n;
}
static int
vf_failing(int e)
{
    if (vf_calls++ != vf_sysfail) return 0;
    vf_sysfailed = 1;
    errno = e;
    return 1;
}
static void
vf_fill(struct stat *st, int n)
{
    int k = 1;
    memset(st, 0, sizeof *st);
    st->st_ino = 100 + n;
    st->st_dev = vf_n[n].dev;
    st->st_mode = vf_n[n].type == DIRT ? S_IFDIR : vf_n[n].type == LNK ? S_IFLNK : S_IFREG;
    if (vf_n[n].type == DIRT && !vf_btrfs) {
        k = 2;
        for (int c = vf_child(n, 0); c >= 0; c = vf_child(n, c)) if (vf_n[c].type == DIRT) k++;
    }
    st->st_nlink = k;
}
static int
vf_st(const char *p, struct stat *st, int follow)
{
    if (vf_failing(EIO)) return -1;
    int n = vf_walk(p, follow);
    if (n < 0) { errno = ENOENT; return -1; }
    vf_fill(st, n);
    return 0;
}
static int vf_stat(const char *p, struct stat *st)  { return vf_st(p, st, 1); }
static int vf_lstat(const char *p, struct stat *st) { return vf_st(p, st, 0); }
static int
vf_newfd(int n)
{
    for (int i = 3; i < 16; i++)
        if (!vf_fd[i]) { vf_fd[i] = n + 1; vf_open_fds++; return i; }
    VF_fail();
    return -1;
}
static int
vf_openf(const char *p, int fl, int m)
{
    if (vf_failing(EMFILE)) return -1;
    int n = vf_walk(p, 1);
    if (n < 0) { errno = ENOENT; return -1; }
    if (vf_n[n].unr) { errno = EACCES; return -1; }
    return vf_newfd(n);
}
#define vf_open3(p, f, m, ...)  vf_openf(p, f, m)
static int vf_node(int fd) { PROVE(fd >= 3 && fd < 16 && vf_fd[fd]); if (fd < 3 || fd >= 16) return 0; return vf_fd[fd] - 1; }
static int vf_closef(int fd) { vf_node(fd); vf_fd[fd] = 0; vf_open_fds--; return 0; }
static int vf_fstat(int fd, struct stat *st) { int n = vf_node(fd); if (vf_failing(EIO)) return -1; vf_fill(st, n); return 0; }
static int vf_fcntl(int fd) { vf_node(fd); if (vf_failing(EIO)) return -1; return 0; }
#define vf_fcntl3(fd, ...)      vf_fcntl(fd)
static int
vf_fchdir(int fd)
{
    int n = vf_node(fd);
    if (vf_failing(EIO)) return -1;
    if (vf_n[n].type != DIRT) { errno = ENOTDIR; return -1; }
    vf_cwd = n;
    return 0;
}
static int
vf_chdir(const char *p)
{
    if (vf_failing(EIO)) return -1;
    int n = vf_walk(p, 1);
    if (n < 0 || vf_n[n].type != DIRT) { errno = ENOENT; return -1; }
    vf_cwd = n;
    return 0;
}
static DIR *
vf_opendir(const char *p)
{
    if (vf_failing(EMFILE)) return 0;
    int n = vf_walk(p, 1);
    if (n < 0 || vf_n[n].type != DIRT) { errno = ENOENT; return 0; }
    if (vf_n[n].unr) { errno = EACCES; return 0; }
    for (int i = 0; i < 4; i++)
        if (!vf_dst[i].fd) {
            vf_dst[i].fd = vf_newfd(n);
            vf_dst[i].node = n;
            vf_dst[i].pos = -2;
            vf_open_dirs++;
            return &vf_dirs[i];
        }
    VF_fail();
    return 0;
}
static int vf_dirno(DIR *d) { for (int i = 0; i < 4; i++) if (d == &vf_dirs[i] && vf_dst[i].fd) return i; VF_fail(); return 0; }
static int vf_dirfd(DIR *d) { return vf_dst[vf_dirno(d)].fd; }
static int vf_closedir(DIR *d) { int i = vf_dirno(d); vf_closef(vf_dst[i].fd); vf_dst[i].fd = 0; vf_open_dirs--; return 0; }
static struct dirent *
vf_readdir(DIR *d)
{
    int i = vf_dirno(d), n;
    int p = vf_dst[i].pos;
    if (p == -2)      { strcpy(vf_de.d_name, ".");  vf_dst[i].pos = -1; vf_de.d_type = DT_DIR; return &vf_de; }
    if (p == -1)      { strcpy(vf_de.d_name, ".."); vf_dst[i].pos = 0;  vf_de.d_type = DT_DIR; return &vf_de; }
    n = vf_child(vf_dst[i].node, p);
    if (n < 0) return 0;
    vf_dst[i].pos = n;
    strcpy(vf_de.d_name, vf_n[n].name);
    vf_de.d_type = !vf_dtype ? DT_UNKNOWN : vf_n[n].type == DIRT ? DT_DIR : vf_n[n].type == LNK ? DT_LNK : DT_REG;
    return &vf_de;
}
static void
vf_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    void **p = b;
    PROVE(sz == sizeof (void *));
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            if (cmp(&p[j - 1], &p[j]) <= 0) break;
            void *t = p[j]; p[j] = p[j - 1]; p[j - 1] = t;
        }
}
#define stat(p, s)      vf_stat(p, s)
#define lstat(p, s)     vf_lstat(p, s)
#define fstat(f, s)     vf_fstat(f, s)
#define open(...)       vf_open3(__VA_ARGS__, 0, 0)
#define close           vf_closef
#define fcntl(...)      vf_fcntl3(__VA_ARGS__, 0)
#define fchdir          vf_fchdir
#define chdir           vf_chdir
#define opendir         vf_opendir
#define dirfd           vf_dirfd
#define closedir        vf_closedir
#define readdir         vf_readdir
#define qsort           vf_qsort
#undef  MAXPATHLEN
#define MAXPATHLEN      4
#undef  PATH_MAX
#define PATH_MAX        4
#ifndef MAX
#define MAX(a, b)       ((a) > (b) ? (a) : (b))
#endif
#undef  assert
#define assert(c)       PROVE(c)
#define __STDC_LIMIT 1
#include "fts.c"
#undef stat
#undef lstat
#undef fstat

static int vf_cmp(const FTSENT **a, const FTSENT **b) { return strcmp((*a)->fts_name, (*b)->fts_name); }

/* ---- the reference: a stack of directories being walked ---- */
#define MAXD    8
static struct { int node, pos, plen; } vf_stk[MAXD];    /* node: the real directory */
static int  vf_top, vf_opts, vf_sorted, vf_pend, vf_root, vf_nroot;
static char *vf_roots[3];
static char vf_path[96];
static int  vf_plen;
static int  vf_ino, vf_info, vf_lvl, vf_real;   /* the event: file, kind, level, and what it leads to */

/* the child after pos, in the order of the walk; "." and ".." are -2 and -1 */
static const char *
vf_nm(int c) { if (c == -2) return "."; if (c == -1) return ".."; return vf_n[c].name; }
static int
vf_next(int dir, int pos)
{
    int best = -3;
    if (!vf_sorted) {
        if (pos == -3 && (vf_opts & FTS_SEEDOT)) return -2;
        if (pos == -2) return -1;
        int c = vf_child(dir, pos < 0 ? 0 : pos);
        return c < 0 ? -3 : c;
    }
    if (vf_opts & FTS_SEEDOT)
        for (int c = -2; c < 0; c++)
            if ((pos == -3 || strcmp(vf_nm(c), vf_nm(pos)) > 0) && (best == -3 || strcmp(vf_nm(c), vf_nm(best)) < 0)) best = c;
    for (int c = vf_child(dir, 0); c >= 0; c = vf_child(dir, c))
        if ((pos == -3 || strcmp(vf_nm(c), vf_nm(pos)) > 0) && (best == -3 || strcmp(vf_nm(c), vf_nm(best)) < 0)) best = c;
    return best;
}
/* what visiting file n is; follow: through links */
static void
vf_kind(int n, int follow, int dots)
{
    vf_ino = n;
    vf_real = n;
    vf_pend = 0;
    if (vf_n[n].type == LNK) {
        if (!follow) { vf_info = FTS_SL; return; }
        vf_real = vf_target(n);
        if (vf_real < 0) { vf_info = FTS_SLNONE; return; }
        vf_ino = vf_real;
    }
    if (vf_n[vf_real].type == REG) { vf_info = FTS_F; return; }
    if (dots) { vf_info = FTS_DOT; return; }
    vf_info = FTS_D;
    for (int i = 0; i < vf_top; i++) if (vf_stk[i].node == vf_real) { vf_info = FTS_DC; return; }
    vf_pend = 1;
}
static void
vf_setname(int base, const char *s)
{
    int slash = base > 0 && vf_path[base - 1] != '/';
    if (slash) vf_path[base++] = '/';
    PROVE(base + strlen(s) < sizeof vf_path);
    strcpy(vf_path + base, s);
    vf_plen = base + strlen(s);
}
/* the next event; 0: no more */
static int
vf_step(void)
{
    if (vf_pend) {              /* a directory was entered, and not skipped */
        vf_pend = 0;
        if (!((vf_opts & FTS_XDEV) && vf_n[vf_real].dev != 1)) {
            if (vf_n[vf_real].unr) { vf_info = FTS_DNR; return 1; }
            PROVE(vf_top < MAXD);
            vf_stk[vf_top].node = vf_real;
            vf_stk[vf_top].pos = -3;
            vf_stk[vf_top].plen = vf_plen;
            vf_top++;
        } else { vf_info = FTS_DP; return 1; }
    }
    if (vf_top > 0) {
        int d = vf_top - 1, c = vf_next(vf_stk[d].node, vf_stk[d].pos);
        if (c == -3) {          /* all done in it */
            vf_top--;
            vf_path[vf_stk[d].plen] = 0;
            vf_plen = vf_stk[d].plen;
            vf_real = vf_ino = vf_stk[d].node;
            vf_info = FTS_DP;
            vf_lvl = d;
            return 1;
        }
        vf_stk[d].pos = c;
        vf_setname(vf_stk[d].plen, vf_nm(c));
        vf_lvl = vf_top;
        if (c == -2) vf_kind(vf_stk[d].node, 0, 1);
        else if (c == -1) vf_kind(vf_n[vf_stk[d].node].par, 0, 1);
        else vf_kind(c, (vf_opts & FTS_LOGICAL) != 0, 0);
        return 1;
    }
    if (vf_root >= vf_nroot) return 0;
    const char *r = vf_roots[vf_root++];
    vf_path[0] = 0;
    vf_setname(0, r);
    vf_lvl = 0;
    int n = vf_walk(r, 0);
    if (n < 0) { vf_info = FTS_NS; vf_ino = vf_real = -1; return 1; }
    vf_kind(n, (vf_opts & (FTS_LOGICAL|FTS_COMFOLLOW)) != 0, 0);
    return 1;
}

static int
vf_nostat(int info, int want)
{
    if (info == want) return 1;
    return (vf_opts & FTS_NOSTAT) && info == FTS_NSOK && (want == FTS_F || want == FTS_SL || want == FTS_DOT);
}
static void
vf_check(FTSENT *p)
{
    PROVE(vf_nostat(p->fts_info, vf_info));
    PROVE(strcmp(p->fts_path, vf_path) == 0);
    PROVE(p->fts_pathlen == vf_plen);
    PROVE(p->fts_level == vf_lvl);
    if (vf_ino < 0) { PROVE(p->fts_errno == ENOENT); return; }
    /* the access path leads to it from where we are */
    PROVE(vf_target(vf_walk(p->fts_accpath, 0)) == vf_target(vf_real < 0 ? vf_ino : vf_real));
    if (!(vf_opts & FTS_NOSTAT)) PROVE(p->fts_statp->st_ino == 100 + vf_ino);
    if (vf_info == FTS_DC) PROVE(p->fts_cycle->fts_ino == 100 + vf_ino);
    if (vf_info == FTS_DNR) PROVE(p->fts_errno == EACCES);
    if (vf_lvl > 0) PROVE(strlen(p->fts_name) == p->fts_namelen && strcmp(p->fts_path + p->fts_pathlen - p->fts_namelen, p->fts_name) == 0);
}
static void
vf_children(FTS *f, int only)
{
    FTSENT *c = fts_children(f, only ? FTS_NAMEONLY : 0);
    if (vf_info != FTS_D || vf_n[vf_real].unr) { PROVE(c == 0); return; }
    int k = vf_next(vf_real, -3);
    for (; k != -3; k = vf_next(vf_real, k)) {
        PROVE(c != 0);
        if (!c) return;
        PROVE(strcmp(c->fts_name, vf_nm(k)) == 0);
        c = c->fts_link;
    }
    PROVE(c == 0);
}
static void
vf_balance(int chdir_lost)
{
    PROVE(vf_live == 0);
    PROVE(vf_open_fds == 0 && vf_open_dirs == 0);
    if (!chdir_lost) PROVE(vf_cwd == 1);
}

enum { NONE, CLOSE, SKIP, AGAIN, FOLLOW, CHILD, NAMES };
/* walk; at event number at, do act */
static int
vf_scene(const char *r0, const char *r1, int opts, int sorted, int at, int act, int btrfs, int dtype)
{
    FTSENT *p;
    int e = 0;
    char *given[3] = { (char *)r0, (char *)r1, 0 };
    int swap = sorted && r1 && strcmp(r0, r1) > 0;
    vf_roots[0] = given[swap]; vf_roots[1] = given[!swap]; vf_roots[2] = 0;
    vf_nroot = r1 ? 2 : 1;
    vf_opts = opts; vf_sorted = sorted; vf_root = vf_top = vf_pend = 0;
    vf_cwd = 1; vf_calls = 0; vf_sysfail = -1; vf_btrfs = btrfs; vf_dtype = dtype;
    FTS *f = fts_open(given, opts, sorted ? vf_cmp : 0);
    PROVE(f != 0);
    for (; vf_step(); e++) {
        p = fts_read(f);
        PROVE(p != 0);
        if (!p) break;
        vf_check(p);
        if (e != at) continue;
        if (act == CLOSE) break;
        if (act == CHILD || act == NAMES) vf_children(f, act == NAMES);
        if (act == SKIP && vf_info == FTS_D) {
            PROVE(fts_set(f, p, FTS_SKIP) == 0);
            p = fts_read(f);
            vf_pend = 0;
            vf_info = FTS_DP;
            vf_check(p);
        }
        if (act == AGAIN && !(p->fts_level == 0 && (opts & FTS_COMFOLLOW)) && (vf_info == FTS_D || vf_info == FTS_F || vf_info == FTS_SL)) {
            PROVE(fts_set(f, p, FTS_AGAIN) == 0);
            FTSENT *q = fts_read(f);
            PROVE(q == p);
            vf_check(q);
        }
        if (act == FOLLOW && (vf_info == FTS_SL || vf_info == FTS_SLNONE) && p->fts_info != FTS_NSOK) {
            PROVE(fts_set(f, p, FTS_FOLLOW) == 0);
            FTSENT *q = fts_read(f);
            PROVE(q == p);
            vf_kind(vf_info == FTS_SL ? vf_real : vf_ino, 1, 0);
            vf_check(q);
        }
    }
    if (e != at || act != CLOSE) {
        PROVE(fts_read(f) == 0 && errno == 0);
        PROVE(fts_read(f) == 0);
    }
    PROVE(fts_close(f) == 0);
    vf_balance(0);
    VF_reach();
    VF_END e;
}

/* one call fails: it is reported, and nothing is left behind */
static int
vf_faulty(const char *r0, int opts, int sorted, int fail, int mem, int follow)
{
    FTSENT *p;
    int told = 0, k = 0, lost = 0;
    vf_roots[0] = (char *)r0; vf_roots[1] = 0;
    vf_cwd = 1; vf_calls = 0; vf_sysfail = mem ? -1 : fail; vf_sysfailed = 0; vf_btrfs = 0; vf_dtype = 1;
    vf_allocs = 0; vf_fail_at = mem ? fail : -1; vf_failed = 0;
    errno = 0;
    FTS *f = fts_open(vf_roots, opts, sorted ? vf_cmp : 0);
    if (!f) PROVE(vf_failed);
    else {
        errno = 0;
        while (k < 40) {
            p = fts_read(f);
            if (!p) break;
            k++;
            if (p->fts_info == FTS_NS || p->fts_info == FTS_ERR || p->fts_info == FTS_DNR || p->fts_errno) told = 1;
            if (follow && !p->fts_number++ && (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) fts_set(f, p, FTS_FOLLOW);
        }
        PROVE(k < 40);
        if (errno) told = 1;
        if (mem && vf_failed) PROVE(told || sorted);    /* without memory to sort, unsorted */
        int r = fts_close(f);
        if (r) lost = 1;
    }
    int failed = mem ? vf_failed : vf_sysfailed;
    vf_fail_at = -1;
    vf_balance(lost);
    VF_reach();
    VF_END failed;
}

static void
vf_group(const char *r0, const char *r1, int opts, int sorted)
{
    int ev = vf_scene(r0, r1, opts, sorted, -1, NONE, 0, 1);
    if (opts & FTS_NOSTAT) { vf_scene(r0, r1, opts, sorted, -1, NONE, 1, 1); vf_scene(r0, r1, opts, sorted, -1, NONE, 0, 0); }
    for (int a = CLOSE; a <= NAMES; a++)
        for (int e = 0; e < ev; e++) if (ALL || (a + e) % 3 == 0 || a == FOLLOW) vf_scene(r0, r1, opts, sorted, e, a, e & 1, a & 1);
}
static void
vf_faults(const char *r0, int opts, int sorted, int follow)
{
    for (int i = 0; i < 80; i++) if (!vf_faulty(r0, opts, sorted, i, 0, follow)) break;
    for (int i = 0; i < 80; i++) if (!vf_faulty(r0, opts, sorted, i, 1, follow)) break;
}

int main(void)
{
    static const struct { const char *a, *b; } rt[] = {
        { "r", 0 }, { "s", 0 }, { "c", 0 }, { "p", 0 }, { "g", 0 }, { "/w/r", "ff" }, { "lr", "ee" }, { "dl", "r/" }, { "nil", "r/d" }, { "lr/", "s/le" }, { "./r/d", "." },
    };
    static const int op[] = { FTS_PHYSICAL, FTS_LOGICAL, FTS_PHYSICAL|FTS_NOCHDIR, FTS_PHYSICAL|FTS_COMFOLLOW|FTS_SEEDOT, FTS_PHYSICAL|FTS_NOSTAT, FTS_LOGICAL|FTS_NOSTAT, FTS_PHYSICAL|FTS_XDEV };
    int k = 0;
    for (int i = 0; i < NELEM(rt) - 1; i++)
        for (int o = 0; o < NELEM(op); o++)
            for (int s = 0; s < 2; s++)
                if ((ALL || (i + o + s) % 4 == 0 || (i == 1 && (o + s) % 2 == 0)) && k++ % VF_NSHARD == VF_SHARD) vf_group(rt[i].a, rt[i].b, op[o], s);
    for (int i = 0; i < 5; i++)
        for (int o = 0; o < NELEM(op); o++)
            if ((ALL || (i + o) % 2 == 0) && k++ % VF_NSHARD == VF_SHARD) vf_faults(rt[i].a, op[o], (i + o) & 1, o % 3 != 2);
    return 0;
}
