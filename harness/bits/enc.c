#include <stdint.h>
#include "fast/encdec.h"
#include "fast/byteorder.h"

#define ENC(n, t) uint8_t *w_enc_##n(uint8_t *b, t v) { return enc_##n(b, v); }
#define DEC(n, t) t w_dec_##n(uint8_t *b) { return dec_##n(b); }
#define ED(n, t) ENC(n, t) DEC(n, t)
ED(LE_u16, uint16_t) ED(BE_u16, uint16_t) ED(LE_u32, uint32_t) ED(BE_u32, uint32_t) ED(LE_u64, uint64_t) ED(BE_u64, uint64_t)
ED(LE_float64, double) ED(BE_float64, double)

#define M(n, t, e) t m_##n(t x) { return e; } t a_##n(t x, t y) { return n(x | y); }
M(__swab16, uint16_t, __swab16(x)) M(__swab32, uint32_t, __swab32(x)) M(__swab64, uint64_t, __swab64(x))
M(__constant_swab16, uint16_t, __constant_swab16(x)) M(__constant_swab32, uint32_t, __constant_swab32(x)) M(__constant_swab64, uint64_t, __constant_swab64(x))
M(__cpu_to_le16, uint16_t, __cpu_to_le16(x)) M(__cpu_to_le32, uint32_t, __cpu_to_le32(x)) M(__cpu_to_le64, uint64_t, __cpu_to_le64(x))
M(__cpu_to_be16, uint16_t, __cpu_to_be16(x)) M(__cpu_to_be32, uint32_t, __cpu_to_be32(x)) M(__cpu_to_be64, uint64_t, __cpu_to_be64(x))
M(__le16_to_cpu, uint16_t, __le16_to_cpu(x)) M(__le32_to_cpu, uint32_t, __le32_to_cpu(x)) M(__le64_to_cpu, uint64_t, __le64_to_cpu(x))
M(__be16_to_cpu, uint16_t, __be16_to_cpu(x)) M(__be32_to_cpu, uint32_t, __be32_to_cpu(x)) M(__be64_to_cpu, uint64_t, __be64_to_cpu(x))
M(htonll, uint64_t, htonll(x)) M(ntohll, uint64_t, ntohll(x))
M(__constant_htonll, uint64_t, __constant_htonll(x)) M(__constant_ntohll, uint64_t, __constant_ntohll(x))
M(__constant_htonl, uint32_t, __constant_htonl(x)) M(__constant_ntohl, uint32_t, __constant_ntohl(x))
M(__constant_htons, uint16_t, __constant_htons(x)) M(__constant_ntohs, uint16_t, __constant_ntohs(x))

/* constant arguments take the other arm of __builtin_constant_p */
uint16_t k_swab16(void) { return __swab16(0x0123); }
uint32_t k_swab32(void) { return __swab32(0x01234567U); }
uint64_t k_swab64(void) { return __swab64(0x0123456789abcdefULL); }

/* what an integer looks like in memory */
void mem16(uint8_t *b, uint16_t v) { *(uint16_t *)b = v; }
void mem32(uint8_t *b, uint32_t v) { *(uint32_t *)b = v; }
void mem64(uint8_t *b, uint64_t v) { *(uint64_t *)b = v; }
#ifdef __little_endian__
int le(void) { return 1; }
#else
int le(void) { return 0; }
#endif
