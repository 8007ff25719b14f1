/* the searchers behind a C interface */
#include <string.h>
#include "utils/strmatch.h"

typedef kmp_search<char>         kmp;
typedef boyer_moore_search<char> bm;
typedef rabin_karp_search<char>  rk;

extern "C" {
void *
vf_new(int algo, const char *pat, int m)
{
    switch (algo) {
        case 0:  return new kmp(pat, m);
        case 3:  return new rk(pat, m);
        default: return new bm(pat, m);
    }
}

static int
give(const std::vector<int>& r, int *out, int max)
{
    int n = (int) r.size();
    for (int i = 0; i < n && i < max; i++) out[i] = r[i];
    return n;
}

int
vf_all(int algo, void *s, const char *text, int n, int *out, int max)
{
    switch (algo) {
        case 0:  return give(((kmp *) s)->matchall(text, n), out, max);
        case 1:  return give(((bm *) s)->matchall(text, n), out, max);
        case 2:  return give(((bm *) s)->turbo_matchall(text, n), out, max);
        default: return give(((rk *) s)->matchall(text, n), out, max);
    }
}

int
vf_len(int algo, void *s)
{
    switch (algo) {
        case 0:  return ((kmp *) s)->patlen();
        case 3:  return ((rk *) s)->patlen();
        default: return ((bm *) s)->patlen();
    }
}

void
vf_delete(int algo, void *s)
{
    switch (algo) {
        case 0:  delete (kmp *) s; return;
        case 3:  delete (rk *) s; return;
        default: delete (bm *) s; return;
    }
}
}
