/*
 * mkdir -p, against a model of the directories along one path. A name given to
 * a call must be a prefix of that path (up to repeated and trailing slashes),
 * so it is as good as its number of components.
 */
#include "vf.h"
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#undef  PATH_MAX
#define PATH_MAX    12

enum { NONE, DIR_, FILE_ };
static char vf_P[PATH_MAX + 3];        /* the path */
static int  vf_plen, vf_isabs, vf_ncomp;
static char vf_at[PATH_MAX + 2];       /* what is at depth d */
static int  vf_sys, vf_fail_at, vf_failed, vf_other_at, vf_made, vf_mode_ok;

static int
vf_depth(const char *p)
{
    int n = 0, d = 0, in = 0;
    while (p[n]) n++;
    if (n >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
    if (n == 0) { errno = ENOENT; return -1; }
    PROVE((p[0] == '/') == vf_isabs);
    for (int i = 0; i < n; i++) {
        if (p[i] == '/') in = 0;
        else {
            PROVE(p[i] == 'a');
            if (!in) d++;
            in = 1;
        }
    }
    if (d > vf_ncomp) VF_fail();
    return d;
}

/* 0, or -1 and errno */
static int
vf_reachable(int d)
{
    for (int i = 0; i < d; i++) {
        if (vf_at[i] == NONE)  { errno = ENOENT;  return -1; }
        if (vf_at[i] == FILE_) { errno = ENOTDIR; return -1; }
    }
    return 0;
}
static void
vf_others(void)                     /* another process runs the same thing */
{
    if (vf_sys != vf_other_at) return;
    for (int i = 0; i <= vf_ncomp; i++)
        if (vf_at[i] == NONE) { vf_at[i] = DIR_; return; }
}
static int
vf_stat(const char *p, struct stat *st)
{
    int d = vf_depth(p);
    if (d < 0) return -1;
    vf_others();
    if (vf_sys++ == vf_fail_at) { vf_failed = 1; errno = vf_errno = VF_ERR(vf_sys); return -1; }
    if (vf_reachable(d) < 0) return -1;
    if (vf_at[d] == NONE) { errno = ENOENT; return -1; }
    if (vf_at[d] == FILE_ && p[strlen(p) - 1] == '/') { errno = ENOTDIR; return -1; }
    st->st_mode = vf_at[d] == DIR_ ? S_IFDIR | 0755 : S_IFREG | 0644;
    return 0;
}
static int
vf_access(const char *p, int m)
{
    struct stat st;
    return vf_stat(p, &st);
}
static int
vf_mkdir(const char *p, mode_t mode)
{
    int d = vf_depth(p);
    if (d < 0) return -1;
    if (mode != 0415) vf_mode_ok = 0;
    vf_others();
    if (vf_sys++ == vf_fail_at) { vf_failed = 1; errno = vf_errno = VF_ERR(vf_sys); return -1; }
    if (vf_reachable(d) < 0) return -1;
    if (vf_at[d] != NONE) { errno = EEXIST; return -1; }
    vf_at[d] = DIR_;
    vf_made++;
    return 0;
}
#define stat(p, s)  vf_stat(p, s)
#define lstat       vf_stat
#define access      vf_access
#define mkdir       vf_mkdir
#include "mkdirhier.c"

/* code: which characters are '/'; have: depth of what is there; file: the next one is a file */
static void
vf_scene(int n, int code, int have, int file, int fail, int other)
{
    vf_plen = n; vf_ncomp = 0;
    for (int i = 0, in = 0; i < n; i++) {
        if (code >> i & 1) { vf_P[i] = '/'; in = 0; }
        else { vf_P[i] = 'a'; if (!in) vf_ncomp++; in = 1; }
    }
    vf_P[n] = 0;
    vf_isabs = n > 0 && vf_P[0] == '/';
    if (have + file > vf_ncomp) { VF_END; }
    for (int i = 0; i < PATH_MAX + 2; i++) vf_at[i] = i <= have ? DIR_ : NONE;
    if (file) vf_at[have + 1] = FILE_;
    vf_sys = vf_failed = vf_made = 0; vf_fail_at = fail; vf_other_at = other; vf_mode_ok = 1; vf_turn++;

    int r = mkdirhier(vf_P, 0415);

    PROVE(vf_mode_ok);
    if (r == 0) {
        VF_reach();
        PROVE(!file && n > 0 && n < PATH_MAX);
        for (int i = 0; i <= vf_ncomp; i++) PROVE(vf_at[i] == DIR_);
        if (have == vf_ncomp) PROVE(vf_made == 0);
    }
    else if (n == 0)        { VF_reach(); PROVE(r == -ENOENT || (vf_failed && r == -vf_errno)); }
    else if (n >= PATH_MAX) { VF_reach(); PROVE(r == -ENAMETOOLONG); }
    else if (vf_failed)        { VF_reach(); PROVE(r == -vf_errno || r == -EEXIST || (file && r == -ENOTDIR)); }
    else                    { VF_reach(); PROVE(file && (r == -ENOTDIR || (r == -EEXIST && have + 1 == vf_ncomp))); }
    VF_END;
}

int main(void)
{
    int k = 0;
    for (int n = 0; n <= PLEN; n++)
        for (int code = 0; code < 1 << n; code++)
            for (int have = 0; have <= (n + 1) / 2; have++)
                for (int file = 0; file < 2; file++)
                    for (int w = 0; w < 1 + 2 * (n + 4); w++) {
                        if (k++ % VF_NSHARD != VF_SHARD) continue;
                        vf_scene(n, code, have, file, w == 0 ? -1 : w & 1 ? w / 2 : -1, w == 0 || w & 1 ? -1 : w / 2 - 1);
                    }
    for (int n = PATH_MAX - 2; n < PATH_MAX + 2; n++)
        for (int have = 0; have < 3; have++) vf_scene(n, 1 << 2 | 1 << 5, have, 0, -1, -1);
    return 0;
}
