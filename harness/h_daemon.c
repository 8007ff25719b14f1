/* becoming a daemon: a model of processes, session, directory and descriptors */
#include "vf.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

#define NFD 8
/*@ assigns \nothing; ensures \false; */
extern void vf_gone(void);
static int  vf_depth, vf_session, vf_leader, vf_masked, vf_calls, vf_fail, vf_who;
static char vf_cwd[8];
static int  vf_fd[NFD];         /* 0 closed, 1 somebody's, 2 /dev/null to read, 3 to write, 4 both */

/* vf_fail: which call fails (-1: none). vf_who: 0 the original, 1 the child, 2 the grandchild continue here */
static int
vf_failing(int e)
{
    if (vf_calls++ != vf_fail) return 0;
    errno = e;
    return 1;
}
static pid_t
vf_fork(void)
{
    if (vf_failing(EAGAIN)) return -1;
    if (vf_depth == vf_who) return 100 + vf_depth;
    vf_depth++;
    vf_leader = 0;
    return 0;
}
static pid_t vf_setsid(void) { PROVE(!vf_leader); vf_session = vf_leader = 1; return 7; }
static int vf_chdir(const char *p) { PROVE(vf_depth > 0); if (vf_failing(ENOENT)) return -1; strncpy(vf_cwd, p, sizeof vf_cwd - 1); return 0; }
static mode_t vf_umask(mode_t m) { PROVE(m == 022); vf_masked++; return 0; }
static int
vf_open(const char *p, int fl, int mode)
{
    PROVE(vf_depth > 0);
    PROVE(strcmp(p, "/dev/null") == 0);
    if (vf_failing(EMFILE)) return -1;
    for (int i = 0; i < NFD; i++)
        if (!vf_fd[i]) {
            int acc = fl & (O_RDONLY|O_WRONLY|O_RDWR);
            vf_fd[i] = acc == O_RDWR ? 4 : acc == O_WRONLY ? 3 : 2;
            return i;
        }
    VF_fail();
    return -1;
}
#define vf_open3(p, f, m, ...)   vf_open(p, f, m)
#define vf_valid(fd)    ((fd) >= 0 && (fd) < NFD && vf_fd[fd] != 0)
static int
vf_dup2(int a, int b)
{
    PROVE(vf_valid(a) && b >= 0 && b < NFD);
    if (vf_failing(EINTR)) return -1;
    vf_fd[b] = vf_fd[a];
    return b;
}
static int vf_close(int fd) { PROVE(vf_valid(fd)); vf_fd[fd] = 0; return 0; }

/* the process ends: only the original and the child may, saying all is well */
static void
vf_ends(int st, int flush)
{
    PROVE(st == 0);
    PROVE(vf_depth == vf_who && vf_who < 2);
    PROVE(flush == (vf_depth == 0));    /* what is buffered is written once */
    VF_reach();
    vf_gone();
}
#define fork            vf_fork
#define setsid          vf_setsid
#define chdir           vf_chdir
#define umask           vf_umask
#define open(...)       vf_open3(__VA_ARGS__, 0, 0)
#define dup2            vf_dup2
#define close           vf_close
#define exit(s)         vf_ends(s, 1)
#define _exit(s)        vf_ends(s, 0)
#define _Exit(s)        vf_ends(s, 0)
#ifndef ETOOMANYREFS
#define ETOOMANYREFS    109
#endif
#ifndef ESHUTDOWN
#define ESHUTDOWN       108
#endif
#include "daemon.c"
int geterrno(void) { return errno; }

static void
vf_scene(int who, int fail, int open0, int open1, int open2, int pwd)
{
    vf_depth = vf_session = vf_leader = vf_masked = vf_calls = 0;
    vf_who = who;
    vf_fail = fail;
    for (int i = 0; i < NFD; i++) vf_fd[i] = 0;
    vf_fd[0] = open0; vf_fd[1] = open1; vf_fd[2] = open2;
    strcpy(vf_cwd, "home");
    int r = daemonize(pwd ? "/w" : 0);
    if (fail >= 0 && vf_calls > fail) PROVE(r < 0 && (r == -EAGAIN || r == -ENOENT || r == -EMFILE || r == -EINTR));
    else {
        PROVE(r == 0);
        PROVE(vf_depth == 2 && vf_who == 2);
        PROVE(vf_session && !vf_leader);
        PROVE(strcmp(vf_cwd, pwd ? "/w" : "/tmp") == 0);
        PROVE(vf_masked > 0);
        PROVE((vf_fd[0] == 2 || vf_fd[0] == 4) && vf_fd[1] >= 3 && vf_fd[2] >= 3);
    }
    for (int i = 3; i < NFD; i++) PROVE(vf_fd[i] == 0);
    VF_reach();
    VF_END;
}

int main(void)
{
    int who = SPLIT(0, 2), fail = SPLIT(-1, 12), o = SPLIT(0, 7), pwd = COIN();
    vf_scene(who, fail, o & 1, (o >> 1) & 1, (o >> 2) & 1, pwd);
    return 0;
}
