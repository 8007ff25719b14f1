/* reading a password: terminal, files and memory on every path */
#include "vf.h"
#include "vf_heap.h"
#include <unistd.h>
#include <termios.h>
#include <stdio.h>
#include <stdarg.h>

static FILE vf_fstdin, vf_ftty;
static int vf_tty_opens, vf_tty_open, vf_istty, vf_attr_ok, vf_set_ok, vf_changed, vf_calls, vf_prompts, vf_lines, vf_eof_errno, vf_noconfirm;
static struct termios vf_term;
static const char *vf_line[6];      /* what is typed; 0: end of file, or an error */

static FILE *
vf_fopen(const char *name, const char *mode)
{
    PROVE(strcmp(name, "/dev/tty") == 0 && mode[0] == 'r');
    if (!vf_tty_opens) { errno = ENXIO; return 0; }
    PROVE(!vf_tty_open);
    vf_tty_open = 1;
    return &vf_ftty;
}
static int vf_fclose(FILE *f) { PROVE(f == &vf_ftty && vf_tty_open); vf_tty_open = 0; return 0; }
static int vf_fileno(FILE *f) { PROVE(f == &vf_fstdin || (f == &vf_ftty && vf_tty_open)); if (f == &vf_ftty) return 9; return 0; }
static int vf_isatty(int fd)  { PROVE(fd == (vf_tty_open ? 9 : 0)); return vf_istty; }
static int
vf_tcgetattr(int fd, struct termios *t)
{
    PROVE(fd == (vf_tty_open ? 9 : 0) && vf_istty);
    if (!vf_attr_ok) { errno = EIO; return -1; }
    *t = vf_term;
    return 0;
}
static int
vf_tcsetattr(int fd, int act, const struct termios *t)
{
    PROVE(fd == (vf_tty_open ? 9 : 0) && vf_istty);
    if (!vf_set_ok) { errno = EIO; return -1; }
    vf_changed++;
    vf_term.c_lflag = t->c_lflag; vf_term.c_iflag = t->c_iflag; vf_term.c_oflag = t->c_oflag; vf_term.c_cflag = t->c_cflag;
    return 0;
}
static char *
vf_fgets(char *b, int n, FILE *f)
{
    PROVE(f == (vf_tty_open ? &vf_ftty : &vf_fstdin));
    if (vf_istty) PROVE(!(vf_term.c_lflag & ECHO) && vf_prompts == vf_lines + 1);
    if (vf_lines >= 6) { VF_fail(); return 0; }
    const char *s = vf_line[vf_lines++];
    if (!s) { if (vf_eof_errno) errno = vf_eof_errno; return 0; }
    PROVE(n > 8);
    int i = 0;
    for (; s[i]; i++) b[i] = s[i] == '0' ? 0 : s[i];        /* '0' stands for a NUL byte */
    b[i] = 0;
    return b;
}
static const char vf_ask[] = "pass", vf_again[] = "again";
/* something is written to stderr: is it a prompt, and is it the one due? */
static void
vf_said(const char *s)
{
    if (s != vf_ask && s != vf_again) return;
    PROVE(s == ((vf_lines & 1) ? vf_again : vf_ask) || vf_noconfirm);
    vf_prompts++;
}
static int
vf_prompt(const char *f, ...)
{
    va_list ap;
    if (f == vf_ask || f == vf_again) { vf_said(f); return 1; }
    va_start(ap, f);
    for (; *f; f++)
        if (*f == '%') {
            f++;
            if (*f == 's') vf_said(va_arg(ap, char *));
            else if (*f != '%') { int v = va_arg(ap, int); (void) v; }
        }
    va_end(ap);
    return 1;
}
static int vf_ferror(FILE *f) { vf_fileno(f); return vf_eof_errno != 0; }
static int vf_feof(FILE *f)   { vf_fileno(f); return vf_eof_errno == 0; }
#undef  stdin
#define stdin           (&vf_fstdin)
#define fopen           vf_fopen
#define fclose          vf_fclose
#undef  fileno
#define fileno          vf_fileno
#define isatty          vf_isatty
#define tcgetattr       vf_tcgetattr
#define tcsetattr       vf_tcsetattr
#define fgets           vf_fgets
#undef  ferror
#undef  feof
#define ferror          vf_ferror
#define feof            vf_feof
#define strerror(e)     "error"
#define fprintf(f, ...) vf_prompt(__VA_ARGS__)
#define fputs(s, f)     vf_prompt(s)
#undef  putc
#define fputc(c, f)     (c)
#define putc(c, f)      (c)
#define fflush(f)       0
#define signal(...)     0
#include "readpass.c"

static int vf_oom;
static const char *vf_typed[] = { "\n", "a\n", "ab\r\n", "\r\n", "a", "", "0b\n", "a\rb\n", "ba\n", "a \n", "A\n", 0 };
#define NT  NELEM(vf_typed)

/* the password a line stands for ends here */
static int
vf_wordlen(const char *s)
{
    int n = 0;
    while (s[n] && s[n] != '0') n++;
    if (n > 0 && s[n-1] == '\n') n--;
    if (n > 0 && s[n-1] == '\r' && s[n] == '\n') n--;
    return n;
}
static int
vf_sameline(const char *a, const char *b)
{
    int i = 0;
    for (; a[i] && a[i] != '0' && a[i] == b[i]; i++);
    return (!a[i] || a[i] == '0') && (!b[i] || b[i] == '0');
}

static void
vf_scene(int dev, int opens, int istty, int attr, int set, int confirm, int l0, int l1, int l2, int e)
{
    char mark = 'X', *pw = &mark;
    tcflag_t lf = Frama_C_nondet(ECHO, ECHO | ICANON | ISIG);

    vf_heap_reset();
    vf_fail_at = vf_oom - 1;
    vf_tty_open = 0; vf_tty_opens = opens; vf_istty = istty; vf_attr_ok = attr; vf_set_ok = set;
    vf_changed = vf_prompts = vf_lines = 0; vf_eof_errno = e;
    vf_term.c_lflag = lf; vf_term.c_iflag = 5; vf_term.c_oflag = 6; vf_term.c_cflag = 7;
    /* two tries as given, later ones never agree */
    vf_line[0] = vf_typed[l0]; vf_line[1] = vf_typed[l1]; vf_line[2] = vf_typed[l2]; vf_line[3] = vf_typed[l1]; vf_line[4] = "x\n"; vf_line[5] = "y\n";
    vf_noconfirm = !confirm;
    errno = 0;

    int r = portable_readpass(&pw, vf_ask, confirm ? vf_again : 0, dev);

    PROVE(!vf_tty_open);
    PROVE(vf_term.c_lflag == lf && vf_term.c_iflag == 5 && vf_term.c_oflag == 6 && vf_term.c_cflag == 7);
    if (!istty) PROVE(vf_changed == 0 && vf_prompts == 0);

    int got = -1;               /* the line that is the answer */
    if (!confirm) got = vf_typed[l0] ? 0 : -1;
    else if (vf_typed[l0] && vf_typed[l1]) {
        if (vf_sameline(vf_typed[l0], vf_typed[l1])) got = 0;
        else if (vf_typed[l2] && vf_sameline(vf_typed[l2], vf_typed[l1])) got = 2;
    }
    if (istty && !(attr && set)) { VF_reach(); PROVE(r == -EIO && vf_lines == 0); got = -1; }
    else if (got < 0) {
        int eof = !vf_typed[l0] || (confirm && (!vf_typed[l1] || !vf_typed[l2]));
        VF_reach();
        PROVE(r < 0);
        if (eof && e) PROVE(r == -e);
        if (!eof) PROVE(r == -EINVAL && vf_lines == 6);
    }
    if (got < 0) {
        PROVE(pw == &mark && mark == 'X' && vf_live == 0);
        VF_END;
    }
    if (r != 0) {
        VF_reach();
        PROVE(r == -ENOMEM && vf_failed && (pw == 0 || pw == &mark));
        PROVE(vf_live == 0);
        VF_END;
    }
    VF_reach();
    int n = vf_wordlen(vf_line[got]);
    PROVE(!vf_failed && pw != &mark && pw != 0 && vf_live == 1);
    for (int i = 0; i < n; i++) PROVE(pw[i] == vf_line[got][i]);
    PROVE(pw[n] == 0);
    PROVE(vf_lines == (confirm ? got + 2 : 1));
    free(pw);
    VF_END;
}

static int vf_k;
/* every scene of one source of lines and one first line */
static void
vf_group(int src, int t, int e, int l0)
{
    for (int l1 = 0; l1 < NT; l1++)
        for (int l2 = 0; l2 < NT; l2++) {
            if (e && l0 < NT - 1 && l1 < NT - 1 && l2 < NT - 1) continue;
            if (l2 != l1 && !ALL && (src > 0 || l2 != (l0 + l1 + 1) % NT)) continue;
            vf_scene(src > 0, src == 1, t, 1, 1, 1, l0, l1, l2, e ? EIO : 0);
        }
    vf_scene(src > 0, src == 1, t, 1, 1, 0, l0, 1, 1, e ? EIO : 0);
    if (l0 < 2) vf_scene(src > 0, src == 1, 1, 0, 1, l0, 1, 1, 1, 0);
    if (l0 < 2) vf_scene(src > 0, src == 1, 1, 1, 0, l0, 1, 1, 1, 0);
    vf_oom = 1;
    if (l0 < 3) vf_scene(src > 0, src == 1, t, 1, 1, l0 & 1, l0, l0, 1, 0);
    vf_oom = 0;
}

int main(void)
{
    for (int src = 0; src < 3; src++)               /* stdin; /dev/tty; neither opens */
        for (int t = src == 1; t < 2; t++)
            for (int e = 0; e < 2; e++)
                for (int l0 = 0; l0 < NT; l0++)
                    if (vf_k++ % VF_NSHARD == VF_SHARD) vf_group(src, t, e, l0);
    return 0;
}
