/* a model of the few libsodium functions used: a rolling digest that depends on every byte */
#ifndef VF_SODIUM_H
#define VF_SODIUM_H 1
#define crypto_generichash_BYTES  32U
#define crypto_hash_sha256_BYTES  32U
typedef struct { uint64_t h; int live; } crypto_hash_sha256_state;
typedef struct { uint64_t h; int live; } crypto_generichash_state;
static int vf_hashed;       /* bytes given to any digest */
static uint64_t vf_roll(uint64_t h, const unsigned char *p, unsigned long long n)
{
    for (unsigned long long i = 0; i < n; i++) h = h * 0x100000001b3UL + p[i] + 1;
    return h;
}
static void vf_spread(unsigned char *o, uint64_t h, size_t n) { for (size_t i = 0; i < n; i++) o[i] = (unsigned char)(h >> (i % 8 * 8)) ^ (unsigned char)(i >> 3); }
static int crypto_hash_sha256_init(crypto_hash_sha256_state *s) { s->h = 1; s->live = 1; return 0; }
static int crypto_hash_sha256_update(crypto_hash_sha256_state *s, const unsigned char *p, unsigned long long n) { PROVE(s->live); s->h = vf_roll(s->h, p, n); return 0; }
static int crypto_hash_sha256_final(crypto_hash_sha256_state *s, unsigned char *o) { PROVE(s->live); s->live = 0; vf_spread(o, s->h, 32); return 0; }
static int crypto_generichash_init(crypto_generichash_state *s, const unsigned char *k, size_t kn, size_t n) { PROVE(n == 32 && kn == 0); s->h = 2; s->live = 1; return 0; }
static int crypto_generichash_update(crypto_generichash_state *s, const unsigned char *p, unsigned long long n) { PROVE(s->live); s->h = vf_roll(s->h, p, n); return 0; }
static int crypto_generichash_final(crypto_generichash_state *s, unsigned char *o, size_t n) { PROVE(s->live); s->live = 0; vf_spread(o, s->h, n); return 0; }
static void sodium_memzero(void *p, size_t n) { memset(p, 0, n); }
static int vf_cmp_result = -2;      /* -2: compare; otherwise the answer */
static int sodium_memcmp(const void *a, const void *b, size_t n)
{
    PROVE(n == 32);
    int r = memcmp(a, b, n);
    if (vf_cmp_result != -2) return vf_cmp_result;
    return r ? -1 : 0;
}
#endif
