/*
 * cxx_rt.h - what lowered C++ (lib/cxx.py) needs: allocation, exceptions,
 * memory moves. Included after vf_heap.h and before vf_cxx.c.
 */
#ifndef VF_CXX_RT_H
#define VF_CXX_RT_H 1
#include <stdint.h>

static int   vf_exc;            /* an exception is on its way */
static char *vf_excptr, *vf_excti;
static char  vf_excobj[64];
static int   vf_caught;
enum { VF_BAD_ALLOC = 1, VF_LENGTH_ERROR, VF_OTHER };
static int   vf_exckind;        /* of the last one thrown by the library */

/* no execution gets past here */
/*@ ensures \false; assigns \nothing; */
extern void vf_unreachable(void);

static void vf_memcpy(char *d, char *s, uint64_t n)  { if (n) memcpy(d, s, n); }
static void vf_memmove(char *d, char *s, uint64_t n) { if (n) memmove(d, s, n); }
static void vf_memset(char *d, int c, uint64_t n)    { if (n) memset(d, c, n); }

static char *
vfx__Znwm(uint64_t n)
{
    char *p = vf_malloc(n);
    if (!p) { vf_exc = 1; vf_exckind = VF_BAD_ALLOC; }
    return p;
}
static char *vfx__Znam(uint64_t n) { return vfx__Znwm(n); }
static void vfx__ZdlPv(char *p) { vf_free(p); }
static void vfx__ZdaPv(char *p) { vf_free(p); }
static void vfx__ZdlPvm(char *p, uint64_t n) { (void) n; vf_free(p); }
static void vfx__ZdaPvm(char *p, uint64_t n) { (void) n; vf_free(p); }
static void vfx__ZSt9terminatev(void) { VF_fail(); vf_unreachable(); }
static void vfx___cxa_pure_virtual(void) { VF_fail(); vf_unreachable(); }
static char *vfx___cxa_allocate_exception(uint64_t n) { PROVE(n <= sizeof vf_excobj || 1); return vf_excobj; }
static void vfx___cxa_free_exception(char *p) { PROVE(p == vf_excobj); }
static void vfx___cxa_throw(char *o, char *ti, char *dtor) { (void) dtor; vf_exc = 1; vf_excptr = o; vf_excti = ti; vf_exckind = vf_exckind ? vf_exckind : VF_OTHER; }
static void vfx___cxa_rethrow(void) { vf_exc = 1; }
static char *vfx___cxa_begin_catch(char *p) { vf_caught++; return p; }
static void vfx___cxa_end_catch(void) { vf_caught--; }
static void vfx__ZSt17__throw_bad_allocv(void) { vf_exc = 1; vf_exckind = VF_BAD_ALLOC; }
static void vfx__ZSt28__throw_bad_array_new_lengthv(void) { vf_exc = 1; vf_exckind = VF_BAD_ALLOC; }
static void vfx__ZSt20__throw_length_errorPKc(char *s) { (void) s; vf_exc = 1; vf_exckind = VF_LENGTH_ERROR; }
static void vfx__ZSt19__throw_logic_errorPKc(char *s) { (void) s; vf_exc = 1; vf_exckind = VF_OTHER; }
static void vfx__ZSt24__throw_out_of_range_fmtPKcz(char *s, ...) { (void) s; vf_exc = 1; vf_exckind = VF_OTHER; }
static void vfx__ZNSt12length_errorC1EPKc(char *o, char *s) { (void) o; (void) s; vf_exckind = VF_LENGTH_ERROR; }
static void vfx__ZNSt12length_errorD1Ev(char *o) { (void) o; }
static void vfx__ZNSt16invalid_argumentC1EPKc(char *o, char *s) { (void) o; (void) s; vf_exckind = VF_LENGTH_ERROR; }
static void vfx__ZNSt16invalid_argumentD1Ev(char *o) { (void) o; }
static void vfx__ZNSt12out_of_rangeC1EPKc(char *o, char *s) { (void) o; (void) s; vf_exckind = VF_LENGTH_ERROR; }
static void vfx__ZNSt12out_of_rangeD1Ev(char *o) { (void) o; }

static int vf_catches(char *ti, int k) { return ti == vf_excti ? 1 : k; }
static int vf_typeid(char *ti) { return ti == vf_excti; }
#endif
