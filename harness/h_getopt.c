/* command lines against a one-pass reading of them */
#include "vf.h"
#include <stdarg.h>
#include <assert.h>
static int vf_posix, vf_msgs;
static int vf_message(void) { vf_msgs++; return 1; }
#undef  assert
#define assert(c)       PROVE(c)
#define fprintf(...)    ((void)0)
#define vfprintf(...)   ((void)vf_message())
#define getenv(s)       (vf_posix ? (char *)"1" : (char *)0)
#include "getopt_long.c"

static int vf_flag;
static const struct option vf_long[] = {
    { "foobar", no_argument,       0,        'B' },
    { "foobaz", no_argument,       0,        'Z' },
    { "foo",    no_argument,       0,        'F' },
    { "bar",    required_argument, 0,        'R' },
    { "opt",    optional_argument, &vf_flag, 7 },
    { "set",    no_argument,       &vf_flag, 9 },
    { 0, 0, 0, 0 }
};
static const char *vf_tok[] = {
    "f", "--", "-x", "-y", "--bar", "--foo", "-xyv", "--opt=u", "-z", "-", "-zq", "--ba=", "-?x", "--fo", "--foob", "--foobaz", "--set=1", "--set", "--no", "--bar=--", "-x-y", "--o", "-yx", "-:"
};
#define NTOK    NELEM(vf_tok)
#define MAXA    4
#define MAXEV   12

static char vf_a0[12], vf_a1[12], vf_a2[12], vf_a3[12], vf_a4[12];
static char *const vf_store[] = { vf_a0, vf_a1, vf_a2, vf_a3, vf_a4 };
static char *vf_argv[MAXA + 2];
static int   vf_argc;

/* what should come out */
static struct { int ret, opt, idx, flag; char *arg; } vf_ev[MAXEV];
static int vf_nev, vf_nop, vf_errs;
static int vf_isop[MAXA + 2];

static void
vf_event(int ret, char *arg, int idx)
{
    PROVE(vf_nev < MAXEV);
    vf_ev[vf_nev].ret = ret; vf_ev[vf_nev].arg = arg; vf_ev[vf_nev].idx = idx; vf_ev[vf_nev].opt = -1; vf_ev[vf_nev].flag = -1;
    vf_nev++;
}
static void
vf_error(int ret, int opt)
{
    vf_event(ret, 0, -1);
    vf_ev[vf_nev - 1].opt = opt;
    vf_errs++;
}

/* the long option a name of n characters stands for; -1: none, -2: several */
static int
vf_lookup(const char *s, int n)
{
    int m = -1;
    for (int i = 0; vf_long[i].name; i++) {
        int j = 0;
        while (j < n && vf_long[i].name[j] == s[j]) j++;
        if (j < n) continue;
        if (vf_long[i].name[n] == 0) return i;
        if (m == -1) m = i;
        else m = -2;
    }
    return m;
}

static void
vf_reference(const char *opts, int lng)
{
    int mode = 0, colon = 0, stop = 0;
    if (*opts == '+' || *opts == '-') mode = *opts++;
    if (*opts == ':') { colon = 1; opts++; }
    if (vf_posix && mode == 0) mode = '+';
    vf_nev = vf_nop = vf_errs = 0;
    for (int i = 1; i < vf_argc; i++) {
        char *s = vf_argv[i];
        vf_isop[i] = 0;
        if (stop) { vf_isop[i] = 1; vf_nop++; continue; }
        if (s[0] != '-' || !s[1]) {
            if (mode == '-' && !vf_posix) { vf_event(1, s, -1); continue; }
            if (mode != 0) stop = 1;
            vf_isop[i] = 1; vf_nop++;
            continue;
        }
        if (s[1] == '-' && !s[2]) { stop = 1; continue; }
        if (s[1] == '-' && lng) {
            int n = 0, k;
            while (s[2 + n] && s[2 + n] != '=') n++;
            k = vf_lookup(s + 2, n);
            if (k < 0) { vf_error('?', 0); continue; }
            int own = vf_long[k].flag ? 0 : vf_long[k].val;
            char *arg = s[2 + n] ? s + 3 + n : 0;
            if (vf_long[k].has_arg == no_argument && arg) { vf_error('X', own); continue; }
            if (vf_long[k].has_arg == required_argument && !arg) {
                if (i + 1 >= vf_argc) { vf_error(colon ? ':' : '?', own); continue; }
                vf_isop[++i] = 0;
                arg = vf_argv[i];
            }
            vf_event(vf_long[k].flag ? 0 : vf_long[k].val, arg, k);
            if (vf_long[k].flag) vf_ev[vf_nev - 1].flag = vf_long[k].val;
            continue;
        }
        for (int j = 1; s[j]; j++) {
            const char *o = opts;
            while (*o && (*o != s[j] || *o == ':')) o++;
            if (!*o) { vf_error('?', s[j]); continue; }
            if (o[1] != ':') { vf_event(s[j], 0, -1); continue; }
            if (s[j + 1]) vf_event(s[j], s + j + 1, -1);
            else if (o[2] == ':') vf_event(s[j], 0, -1);
            else if (i + 1 >= vf_argc) vf_error(colon ? ':' : '?', s[j]);
            else {
                vf_isop[i + 1] = 0;
                vf_event(s[j], vf_argv[i + 1], -1);
                i++;
            }
            break;
        }
    }
}

static int
vf_next(const char *opts, int lng, int *idx)
{
    if (lng) return getopt_long(vf_argc, vf_argv, opts, vf_long, idx);
    return getopt(vf_argc, vf_argv, opts);
}

/* restart: 1 by optind = 0, as the header says; 2: having left another line half way; 3: by optreset */
static void
vf_scene(const char *opts, int lng, int posix, int restart, int n, int t0, int t1, int t2, int t3)
{
    char *orig[MAXA + 2];
    int t[] = { t0, t1, t2, t3 };
    static char *other[] = { "p", "-xyz", "f", "-x", 0 };

    vf_posix = posix;
    if (restart >= 2) {
        char *v[5];
        for (int i = 0; i < 5; i++) v[i] = other[i];
        optind = 0;
        opterr = 0;
        getopt(4, v, "xyz");
    }
    vf_argc = n + 1;
    strcpy(vf_a0, "prog");
    orig[0] = vf_argv[0] = vf_a0;
    for (int i = 1; i <= n; i++) {
        strcpy(vf_store[i], vf_tok[t[i - 1]]);
        orig[i] = vf_argv[i] = vf_store[i];
    }
    vf_argv[n + 1] = 0;
    vf_reference(opts, lng);

    if (restart == 3) { optind = 1; optreset = 1; }
    else optind = 0;
    opterr = (n ^ t0 ^ t1) & 1;
    vf_msgs = 0;
    for (int e = 0; e < vf_nev; e++) {
        int idx = -7;
        optarg = (char *)opts; optopt = -1; vf_flag = -1;
        int r = vf_next(opts, lng, &idx);
        if (vf_ev[e].ret == 'X') PROVE(r == '?' || r == ':');
        else PROVE(r == vf_ev[e].ret);
        if (vf_ev[e].opt >= 0) PROVE(optopt == vf_ev[e].opt);
        else {
            PROVE(optarg == vf_ev[e].arg);
            PROVE(idx == (vf_ev[e].idx >= 0 ? vf_ev[e].idx : -7));
            PROVE(vf_flag == vf_ev[e].flag);
        }
    }
    PROVE(vf_next(opts, lng, 0) == -1);
    VF_reach();
    int quiet = *opts == ':' || ((*opts == '+' || *opts == '-') && opts[1] == ':');
    PROVE(vf_msgs == (opterr && !quiet ? vf_errs : 0));
    PROVE(optind == vf_argc - vf_nop);
    /* options first, operands after, each in the order given */
    int a = 1, b = optind;
    PROVE(vf_argv[0] == orig[0]);
    for (int i = 1; i <= n; i++) {
        if (vf_isop[i]) { PROVE(vf_argv[b] == orig[i]); b++; }
        else            { PROVE(vf_argv[a] == orig[i]); a++; }
    }
    VF_END;
}

static void
vf_group(const char *opts, int posix, int t0)
{
    int lng = 1;
    if (t0 == 0) vf_scene(opts, lng, posix, 1, 0, 0, 0, 0, 0);
    vf_scene(opts, lng, posix, 2, 1, t0, 0, 0, 0);
    for (int t1 = 0; t1 < NTOK; t1++) {
        vf_scene(opts, lng, posix, 1 + (t0 + t1) % 3, 2, t0, t1, 0, 0);
        for (int t2 = 0; t2 < N3; t2++) {
            vf_scene(opts, lng, posix, 1 + (t0 + t1 + t2) % 3, 3, t0, t1, t2, 0);
            for (int t3 = 0; t3 < N4 && t1 < N4; t3++) vf_scene(opts, lng, posix, 1 + (t2 + t3) % 3, 4, t0, t1, t2, t3);
        }
    }
}

/* getopt(): one-letter options only */
static void
vf_short(const char *opts, int posix, int t0)
{
    static const char tk[] = { 0, 1, 2, 3, 6, 8, 9, 10, 12, 20, 22 };
    for (int i = 0; i < NELEM(tk); i++)
        for (int j = 0; j < N3; j++) vf_scene(opts, 0, posix, 1 + (i + j) % 3, 3, tk[t0 % NELEM(tk)], tk[i], tk[j % NELEM(tk)], 0);
}

int main(void)
{
    static const char *const opts[] = { "xy:z::", ":xy:z::", "+xy:z::", "-xy:z::", "-:xy:z::", "+:xy:z::" };
    int k = 0;
    for (int o = 0; o < NELEM(opts); o++)
        for (int t0 = 0; t0 < NTOK; t0++) {
            if (k++ % VF_NSHARD == VF_SHARD) vf_group(opts[o], 0, t0);
            if (t0 < 11 && k++ % VF_NSHARD == VF_SHARD) vf_short(opts[o], 0, t0);
            if (o == 0 && t0 < 11 && k++ % VF_NSHARD == VF_SHARD) vf_group(opts[o], 1, t0);
        }
    return 0;
}
