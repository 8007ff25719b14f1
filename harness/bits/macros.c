#ifdef __cplusplus
#define _Static_assert(a, b)
#else
#define OPTIMIZER_HIDE_VAR(v) (void)(v)
#include "utils/nospec.h"
#endif
#include "utils/typeutils.h"
#include "utils/utils.h"
#include "fast/tmutils.h"

#ifdef __cplusplus
extern "C" {
#define N(x) x ## _cpp
using namespace putils;
#define UP(v, n)   align_up<T>(v, n)
#define DOWN(v, n) align_down<T>(v, n)
#define ISAL(v, n) is_aligned<T>(v, n)
#define POW2(v)    round_up_pow2<T>(v)
#else
#define N(x) x
#define UP(v, n)   _ALIGN_UP(v, n)
#define DOWN(v, n) _ALIGN_DOWN(v, n)
#define ISAL(v, n) _IS_ALIGNED(v, n)
#define POW2(v)    NEXTPOW2(v)
int v_ispow2(uint64_t n) { return _IS_POW2(n); }
uint64_t v_mask(uint64_t i, uint64_t n) { return __array_index_mask_nospec(i, n); }
uint64_t v_clamp(uint64_t i, uint64_t n) { return array_index_nospec(i, n); }
int v_arrsz(void) { int a[13]; char b[7]; return (int)(ARRAY_SIZE(a) * 100 + ARRAY_SIZE(b)); }
uint64_t v_hour(uint64_t n) { return _Hour(n); }
uint64_t v_minute(uint64_t n) { return _Minute(n); }
uint64_t v_second(uint64_t n) { return _Second(n); }
uint64_t v_millisecond(uint64_t n) { return _Millisecond(n); }
uint64_t v_microsecond(uint64_t n) { return _Microsecond(n); }
uint64_t v_nanosecond(uint64_t n) { return _Nanosecond(n); }
uint64_t v_hour1(uint64_t n) { return _Hour(n + 1); }
uint64_t v_ms1(uint64_t n) { return _Millisecond(n + 1); }
uint64_t v_SEC(uint64_t n) { return _SEC(n); }
uint64_t v_MSEC(uint64_t n) { return _MSEC(n); }
uint64_t v_USEC(uint64_t n) { return _USEC(n); }
uint64_t v_SEC1(uint64_t n) { return _SEC(n + 1); }
uint64_t v_timenow(void) { return timenow(); }
uint64_t v_timenow_us(void) { return timenow_us(); }
uint64_t v_now(void) { return now(); }
#endif
#define T uint64_t
uint64_t N(v_up)(uint64_t v, uint64_t n) { return UP(v, n); }
uint64_t N(v_down)(uint64_t v, uint64_t n) { return DOWN(v, n); }
int N(v_isal)(uint64_t v, uint64_t n) { return ISAL(v, n); }
uint64_t N(v_pow2)(uint64_t v) { return POW2(v); }
#undef T
#define T uint32_t
uint32_t N(v_up32)(uint32_t v, uint32_t n) { return UP(v, n); }
uint32_t N(v_down32)(uint32_t v, uint32_t n) { return DOWN(v, n); }
int N(v_isal32)(uint32_t v, uint32_t n) { return ISAL(v, n); }
uint32_t N(v_pow232)(uint32_t v) { return POW2(v); }
#ifdef __cplusplus
}
#endif
