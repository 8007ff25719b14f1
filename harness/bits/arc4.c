#include "arc4random.c"

void v_buf(void *p, size_t n) { arc4random_buf(p, n); }
uint32_t v_32(void) { return arc4random(); }
uint32_t v_uniform(uint32_t b) { return arc4random_uniform(b); }

/* ChaCha20 (Bernstein 2008: 64-bit block counter, 64-bit nonce), one block, written independently */
static uint32_t c_ld(const uint8_t *p) { return (uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]; }
static uint32_t c_rot(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
void ref_chacha20(const uint8_t *key, const uint8_t *iv, uint64_t ctr, uint8_t *out)
{
    static const uint32_t cst[4] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
    static const uint8_t at[8][4] = { {0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14} };
    uint32_t s[16], x[16];
    for (int i = 0; i < 4; i++) s[i] = cst[i];
    for (int i = 0; i < 8; i++) s[4 + i] = c_ld(key + 4 * i);
    s[12] = (uint32_t)ctr; s[13] = (uint32_t)(ctr >> 32);
    s[14] = c_ld(iv); s[15] = c_ld(iv + 4);
    for (int i = 0; i < 16; i++) x[i] = s[i];
    for (int r = 0; r < 10; r++)
        for (int q = 0; q < 8; q++) {
            uint32_t *a = &x[at[q][0]], *b = &x[at[q][1]], *c = &x[at[q][2]], *d = &x[at[q][3]];
            *a += *b; *d = c_rot(*d ^ *a, 16);
            *c += *d; *b = c_rot(*b ^ *c, 12);
            *a += *b; *d = c_rot(*d ^ *a, 8);
            *c += *d; *b = c_rot(*b ^ *c, 7);
        }
    for (int i = 0; i < 16; i++) {
        uint32_t v = x[i] + s[i];
        for (int k = 0; k < 4; k++) out[4 * i + k] = (uint8_t)(v >> (8 * k));
    }
}
