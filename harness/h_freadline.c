/* freadline: lines ended by LF, CR or CRLF, read errors, tight buffers. */
#include "vf.h"
static const unsigned char *vfh_in_;
static int vfh_in_n, vfh_in_pos, vfh_err_at, vfh_failed_, vfh_pushed_;
static FILE *FP_ = (FILE *)"";
static int
vf_fgetc(FILE *fp)
{
    PROVE(fp == FP_);
    if (vfh_in_pos == vfh_err_at) { vfh_failed_ = 1; errno = EIO; return EOF; }
    if (vfh_in_pos >= vfh_in_n) return EOF;
    vfh_pushed_ = 0;
    return vfh_in_[vfh_in_pos++];
}
static int vf_ferror(FILE *fp) { PROVE(fp == FP_); return vfh_failed_; }
static int vf_ungetc(int c, FILE *fp) { PROVE(fp == FP_ && c != EOF && !vfh_pushed_); PROVE(vfh_in_pos > 0 && vfh_in_[vfh_in_pos - 1] == (unsigned char)c); vfh_in_pos--; vfh_pushed_ = 1; return c; }
#undef ferror
#define fgetc  vf_fgetc
#define getc   vf_fgetc
#define ferror vf_ferror
#define ungetc vf_ungetc
#include "src/freadline.c"

/* byte classes: LF, CR, and two kinds of others */
static const struct vf_cls vfh_cls[] = { { '\n', '\n' }, { '\r', '\r' }, { 'a', 'z' }, { -128, -1 } };
#define NC 4

static void
vfh_scene(int n, int code, int cap, int err)
{
    char in[SN + 3];
    unsigned char cv[SN + 3];
    vf_clsstr(in, cv, n, code, vfh_cls, NC, 1);
    vfh_in_ = (unsigned char *)in; vfh_in_n = n; vfh_in_pos = 0; vfh_err_at = err; vfh_failed_ = vfh_pushed_ = 0;
    int pos = 0;
    for (int line = 0; line < 3; line++) {
        unsigned char buf[16], *b = &buf[16 - cap];
        int lim = err >= 0 && err < n ? err : n;
        int e = pos, nx;
        while (e < lim && cv[e] > 1) e++;
        int r = freadline(FP_, b, cap);
        VF_reach();
        if (e - pos >= cap && e < n + 1) { PROVE(r == -ENOSPC); VF_END; }
        if (e == err) { PROVE(r == -EIO); VF_END; }
        PROVE(r == e - pos);
        PROVE(b[r] == 0);
        for (int i = 0; i < r; i++) PROVE(vf_is((char)b[i], pos + i, cv[pos + i], vfh_cls, 1));
        nx = e;
        if (nx < n && cv[nx++] == 1 && nx < n && cv[nx] == 0) {
            if (err == nx) { PROVE(vfh_failed_); VF_END; }
            nx++;
        }
        PROVE(vfh_in_pos == nx);
        pos = nx;
    }
    VF_END;
}

int main(void)
{
    for (int n = 0; n <= SN; n++) {
        int m = vf_pow(NC, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD)
            for (int cap = 1; cap <= n + 1; cap++)
                for (int err = -1; err <= n; err += err < 0 ? n - (n > 2) + 1 : 1) vfh_scene(n, code, cap, err);
    }
    return 0;
}
