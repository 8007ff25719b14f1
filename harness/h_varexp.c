/* gstr_varexp against a reference expander. */
#include "vf.h"
#define HEAP_SIZE 160
#include "vf_heap.h"
#include "src/gstring.c"
#undef isalnum
#include "src/gstring_var.c"

/* names a, b, $, a b, A1 have values; lookups must be for the right name and cookie */
static char vfh_names[8][16];
static int  vfh_nnames, vfh_cookie_;
static const char *
vfh_value(const char *k)
{
    if (k[0] && !k[1]) switch (k[0]) {
        case 'a': return "<long value of a: 0123456789012345678901234567890123456789>";
        case 'b': return "";
        case '$': return "D$a";
        case '-': return "m";
    }
    if (k[0] == 'a' && k[1] == 'a' && !k[2]) return "AA";
    if (k[0] == 'a' && k[1] == ' ' && k[2] == 'a' && !k[3]) return "sp";
    if (k[0] == '{' && !k[1]) return "brace";
    if (k[0] == (char)0xe9 && !k[1]) return "hi";
    if (k[0] == '\\' && !k[1]) return "bs";
    return 0;
}
static const char *
vfh_find(void *ck, const char *key)
{
    PROVE(ck == &vfh_cookie_);
    if (vfh_nnames < 8) { int i = 0; while (key[i] && i < 15) { vfh_names[vfh_nnames][i] = key[i]; i++; } vfh_names[vfh_nnames++][i] = 0; }
    return vfh_value(key);
}

static int vfh_isname(int c)
{
    c &= 0xff;
    if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) return 1;
    return c == '$' || c == '#' || c == '@' || c == '?' || c == '*' || c == '!' || c == '<' || c == '>' || c == '%' ||
           c == '^' || c == '&' || c == '-' || c == '_' || c == '|' || c == ':' || c == '.';
}

static char vfh_out[300], vfh_rn[8][16];
static int  vfh_on, vfh_rnn;
static int
vfh_reference(const char *s, int n)
{
    vfh_on = vfh_rnn = 0;
    for (int i = 0; i < n; ) {
        if (s[i] == '\\' && i + 1 < n && s[i + 1] == '$') { vfh_out[vfh_on++] = '$'; i += 2; continue; }
        if (s[i] != '$') { vfh_out[vfh_on++] = s[i++]; continue; }
        char nm[16];
        int k = 0, j = i + 1;
        if (j < n && s[j] == '{') {
            j++;
            while (j < n && s[j] != '}') nm[k++] = s[j++];
            if (j >= n) return -EINVAL;
            j++;
        } else while (j < n && vfh_isname(s[j])) nm[k++] = s[j++];
        if (k == 0) return -EINVAL;
        nm[k] = 0;
        memcpy(vfh_rn[vfh_rnn++], nm, k + 1);
        const char *z = vfh_value(nm);
        if (!z) return -ENOENT;
        while (*z) vfh_out[vfh_on++] = *z++;
        i = j;
    }
    return 0;
}

static void
vfh_scene(const char *s, int n)
{
    gstr g;
    vf_heap_reset();
    vfh_nnames = 0;
    int e = vfh_reference(s, n);
    gstr_init_from(&g, s);
    PROVE(g.len == n);
    int r = gstr_varexp(&g, vfh_find, &vfh_cookie_);
    VF_reach();
    PROVE(r == e && vfh_nnames == vfh_rnn);
    for (int i = 0; i < vfh_rnn; i++) for (int k = 0; ; k++) { PROVE(vfh_names[i][k] == vfh_rn[i][k]); if (!vfh_rn[i][k]) break; }
    PROVE(g.cap > g.len);
    PROVE(g.str[g.len] == 0);
    if (e == 0) {
        PROVE(g.len == vfh_on);
        for (int i = 0; i < vfh_on; i++) PROVE(g.str[i] == vfh_out[i]);
    }
    g.str[g.cap - 1] = 0;
    PROVE(vf_live == 1);
    gstr_fini(&g);
    PROVE(vf_live == 0);
    VF_END;
}

static const char vfh_alpha[] = { '$', 'a', '{', '}', '\\', ' ', 'b', (char)0xe9 };
static void
vfh_scene_enum(int n, int code, int na)
{
    char b[12], *s = &b[11 - n];
    b[11] = 0;
    for (int i = 0; i < n; i++) { s[i] = vfh_alpha[code % na]; code /= na; }
    vfh_scene(s, n);
    VF_END;
}

/* every byte as a one-character name, bare and in braces */
static void
vfh_scene_char(int c, int brace)
{
    char s[6];
    int n = 0;
    s[n++] = '$';
    if (brace) s[n++] = '{';
    s[n++] = c;
    if (brace) s[n++] = '}';
    s[n] = 0;
    vfh_scene(s, n);
    VF_END;
}

#ifdef ANY
/* any bytes, any answer of the lookup: a valid string or an error, nothing leaked */
static const char *vfh_anyfind(void *ck, const char *key) { (void)ck; (void)key; return COIN() ? "some value" : 0; }
/* the bytes by what they can mean: an interval is never cut in the middle by a test for one of them */
static const signed char vfh_class[10][2] = { {1, '#'}, {'$', '$'}, {'%', '['}, {'\\', '\\'}, {']', 'z'}, {'{', '{'}, {'|', '|'}, {'}', '}'}, {'~', 127}, {-128, -1} };
static void
vfh_scene_any(int n, int pat)
{
    char b[12], *s = &b[11 - n];
    gstr g;
    vf_heap_reset();
    for (int i = 0; i < n; i++) { s[i] = Frama_C_interval(vfh_class[pat % 10][0], vfh_class[pat % 10][1]); pat /= 10; }
    s[n] = 0;
    gstr_init_from(&g, s);
    int r = gstr_varexp(&g, vfh_anyfind, 0);
    VF_reach();
    PROVE(r == 0 || r == -EINVAL || r == -ENOENT);
    PROVE(g.cap > g.len);
    PROVE(g.str[g.len] == 0);
    g.str[g.cap - 1] = 0;
    PROVE(vf_live == 1);
    gstr_fini(&g);
    PROVE(vf_live == 0);
    VF_END;
}

#endif
int main(void)
{
#ifdef ANY
    for (int n = 0; n <= ANY; n++) for (int p = VF_SHARD; p < vf_pow(10, n); p += VF_NSHARD) vfh_scene_any(n, p);
    vfh_scene("a${b}", 5);
    return 0;
#endif
    for (int n = 0; n <= SN; n++) {
        int na = n <= 3 ? 8 : n == 4 ? 6 : 5;
        int m = vf_pow(na, n);
        for (int code = VF_SHARD; code < m; code += VF_NSHARD) vfh_scene_enum(n, code, na);
    }
    for (int c = 1 + VF_SHARD; c < 256; c += VF_NSHARD) { vfh_scene_char(c, 0); vfh_scene_char(c, 1); }
    if (VF_SHARD == 0) {
        vfh_scene("${a}${a}", 8); vfh_scene("${a}$b", 6); vfh_scene("$b${a}", 6); vfh_scene("\\$$b", 4); vfh_scene("${$a}", 5); vfh_scene("${a a}", 6); vfh_scene("${a}\\${a}", 9);
        vfh_scene("xxxx${a}yyyy${aa}$-", 19);
    }
    return 0;
}
