#include "hashfunc/cityhash.c"
typedef struct { uint64_t a, b; } r_p;
static const uint64_t K0 = 0xc3a5c85c97cb3127ull, K1 = 0xb492b66fbe98f273ull, K2 = 0x9ae16a3b2f90404full, K3 = 0xc949d7c7509e6557ull;
static uint64_t r_ld(const unsigned char *p, int n) { uint64_t v = 0; int i; for (i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
#define F(q) r_ld(q, 8)
static uint64_t r_rr(uint64_t x, int k) { k &= 63; return k ? x >> k | x << (64 - k) : x; }
static uint64_t r_sm(uint64_t x) { return x ^ x >> 47; }
static uint64_t r_16(uint64_t u, uint64_t v)
{
    const uint64_t m = 0x9ddfea08eb382d69ull;
    return r_sm((v ^ r_sm((u ^ v) * m)) * m) * m;
}
static uint64_t r_016(const unsigned char *s, size_t n)
{
    if (n > 8) { uint64_t b = F(s + n - 8); return r_16(F(s), r_rr(b + n, (int)n)) ^ b; }
    if (n >= 4) return r_16(n + (r_ld(s, 4) << 3), r_ld(s + n - 4, 4));
    if (n) {
        uint32_t y = s[0] + ((uint32_t)s[n / 2] << 8), z = (uint32_t)n + ((uint32_t)s[n - 1] << 2);
        return r_sm(y * K2 ^ z * K3) * K2;
    }
    return K2;
}
static r_p r_weak(const unsigned char *s, uint64_t a, uint64_t b)
{
    uint64_t w = F(s), x = F(s + 8), y = F(s + 16), z = F(s + 24), c = a + w, d = c + x + y;
    b = r_rr(b + c + z, 21);
    return (r_p){ d + z, b + r_rr(d, 44) + c };
}
static void r_loop(const unsigned char *s, uint64_t *x, uint64_t *y, uint64_t *z, r_p *v, r_p *w)
{
    uint64_t t;
    *x = r_rr(*x + *y + v->a + F(s + 8), 37) * K1 ^ w->b;
    *y = r_rr(*y + v->b + F(s + 48), 42) * K1 + v->a + F(s + 40);
    *z = r_rr(*z + w->a, 33) * K1;
    *v = r_weak(s, v->b * K1, *x + w->a);
    *w = r_weak(s + 32, *z + w->b, *y + F(s + 16));
    t = *z; *z = *x; *x = t;
}
static uint64_t r_city64(const unsigned char *s, size_t n)
{
    if (n <= 16) return r_016(s, n);
    if (n <= 32) {
        uint64_t a = F(s) * K1, b = F(s + 8), c = F(s + n - 8) * K2, d = F(s + n - 16) * K0;
        return r_16(r_rr(a - b, 43) + r_rr(c, 30) + d, a + r_rr(b ^ K3, 20) - c + n);
    }
    if (n <= 64) {
        uint64_t z = F(s + 24), a = F(s) + (n + F(s + n - 16)) * K0, b = r_rr(a + z, 52), c = r_rr(a, 37), vf, vs, wf, ws;
        a += F(s + 8); c += r_rr(a, 7); a += F(s + 16);
        vf = a + z; vs = b + r_rr(a, 31) + c;
        a = F(s + 16) + F(s + n - 32); z = F(s + n - 8); b = r_rr(a + z, 52); c = r_rr(a, 37);
        a += F(s + n - 24); c += r_rr(a, 7); a += F(s + n - 16);
        wf = a + z; ws = b + r_rr(a, 31) + c;
        return r_sm(r_sm((vf + ws) * K2 + (wf + vs) * K0) * K0 + vs) * K2;
    }
    uint64_t x = F(s + n - 40), y = F(s + n - 16) + F(s + n - 56), z = r_16(F(s + n - 48) + n, F(s + n - 24));
    r_p v = r_weak(s + n - 64, n, z), w = r_weak(s + n - 32, y + K1, x);
    size_t k;
    x = x * K1 + F(s);
    for (k = 0; k < (n - 1) / 64; k++) r_loop(s + 64 * k, &x, &y, &z, &v, &w);
    return r_16(r_16(v.a, w.a) + r_sm(y) * K1 + z, r_16(v.b, w.b) + x);
}
static r_p r_city128s(const unsigned char *s, size_t n, uint64_t s0, uint64_t s1)
{
    if (n < 128) {
        uint64_t a = s0, b = s1, c, d;
        if (n <= 16) {
            a = r_sm(a * K1) * K1;
            c = b * K1 + r_016(s, n);
            d = r_sm(a + (n >= 8 ? F(s) : c));
        } else {
            size_t k;
            c = r_16(F(s + n - 8) + K1, a);
            d = r_16(b + n, c + F(s + n - 16));
            a += d;
            for (k = 0; k + 16 < n; k += 16) {
                a = (a ^ r_sm(F(s + k) * K1) * K1) * K1;
                b ^= a;
                c = (c ^ r_sm(F(s + k + 8) * K1) * K1) * K1;
                d ^= c;
            }
        }
        a = r_16(a, c); b = r_16(d, b);
        return (r_p){ a ^ b, r_16(b, a) };
    }
    uint64_t x = s0, y = s1, z = n * K1;
    r_p v, w;
    size_t t;
    v.a = r_rr(y ^ K1, 49) * K1 + F(s);
    v.b = r_rr(v.a, 42) * K1 + F(s + 8);
    w.a = r_rr(y + z, 35) * K1 + x;
    w.b = r_rr(x + F(s + 88), 53) * K1;
    for (; n >= 128; n -= 128, s += 128) { r_loop(s, &x, &y, &z, &v, &w); r_loop(s + 64, &x, &y, &z, &v, &w); }
    x += r_rr(v.a + z, 49) * K0;
    z += r_rr(w.a, 37) * K0;
    for (t = 32; t < n + 32; t += 32) {
        const unsigned char *e = s + n - t;
        y = r_rr(x + y, 42) * K0 + v.b;
        w.a += F(e + 16);
        x = x * K0 + w.a;
        z += w.b + F(e);
        w.b += v.a;
        v = r_weak(e, v.a + z, v.b);
    }
    x = r_16(x, v.a); y = r_16(y + z, w.a);
    return (r_p){ r_16(x + v.b, w.b) + y, r_16(x + w.b, y + v.b) };
}
uint64_t ref_city_hash(const unsigned char *s, size_t n, uint64_t seed)
{
    uint64_t h = r_city64(s, n);
    return seed ? r_16(h - K2, seed) : h;
}
void ref_city_hash_128(uint64_t *out, const unsigned char *s, size_t n, uint64_t s0, uint64_t s1)
{
    r_p r;
    if (s0 == 0 && s1 == 0) {
        if (n >= 16) r = r_city128s(s + 16, n - 16, F(s) ^ K3, F(s + 8));
        else if (n >= 8) r = r_city128s(0, 0, F(s) ^ (n * K0), F(s + n - 8) ^ K1);
        else r = r_city128s(s, n, K0, K1);
    } else r = r_city128s(s, n, s0, s1);
    out[0] = r.a; out[1] = r.b;
}
void u_city_hash_128(uint64_t *out, const unsigned char *s, size_t n, uint64_t s0, uint64_t s1)
{
    uint_128_t q = { { s0, s1 } }, r = city_hash_128(s, n, q);
    out[0] = r.v[0]; out[1] = r.v[1];
}
