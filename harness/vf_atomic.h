/* vf_atomic.h - model (in place of <stdatomic.h>) of C11 atomics.
 *
 * Every atomic access of the code under analysis becomes a call of
 * vf_atomic(): implicit accesses ("q->tail != x" on an _Atomic) are made
 * explicit by lib/cppfilter.py from clang's typed syntax tree, which also
 * drops the _Atomic qualifier afterwards. The harness defines VF_HOOK(),
 * which lets other threads run and keeps track of what has been published
 * to, and observed by, the thread under analysis.
 */
#ifndef VF_STDATOMIC_H
#define VF_STDATOMIC_H 1
#define __FC_STDATOMIC 1
#include <stdint.h>
#include <stddef.h>
/* as in glibc for x86_64 */
#define uint_fast16_t unsigned long
#define uint_fast32_t unsigned long
#define uint_fast64_t unsigned long
typedef _Atomic unsigned long atomic_uint_fast16_t;
typedef _Atomic unsigned long atomic_uint_fast32_t;
typedef _Atomic unsigned long atomic_uint_fast64_t;
typedef _Atomic unsigned long atomic_ulong;
typedef _Atomic unsigned long atomic_size_t;
typedef _Atomic unsigned long atomic_uintptr_t;
typedef enum memory_order { memory_order_relaxed, memory_order_consume, memory_order_acquire,
                            memory_order_release, memory_order_acq_rel, memory_order_seq_cst } memory_order;
#define VF_ACQ(mo)  ((mo) == memory_order_consume || (mo) == memory_order_acquire || (mo) >= memory_order_acq_rel)
#define VF_REL(mo)  ((mo) >= memory_order_release)

/* kind of access */
enum { AT_LOAD, AT_STORE, AT_RMW };
typedef unsigned long vf_atom;

/* before an access: other threads may run; returns the value a load or the
 * read of a read-modify-write sees */
static vf_atom VF_ENTER(vf_atom *p, int kind, int mo);
/* the access wrote v in the place of old (AT_STORE, AT_RMW) */
static void VF_WROTE(vf_atom *p, int kind, vf_atom old, vf_atom v, int mo);

static inline vf_atom vf_at_load(vf_atom *p, int mo) { return VF_ENTER(p, AT_LOAD, mo); }
static inline vf_atom vf_at_store(vf_atom *p, vf_atom v, int mo)
{
    vf_atom o;
    o = VF_ENTER(p, AT_STORE, mo);
    *p = v;
    VF_WROTE(p, AT_STORE, o, v, mo);
    return v;
}
enum { AT_ADD, AT_SUB, AT_OR, AT_AND, AT_XOR, AT_XCHG };
static inline vf_atom vf_at_rmw(vf_atom *p, vf_atom v, int op, int mo)
{
    vf_atom o, n;
    o = VF_ENTER(p, AT_RMW, mo);
    n = op == AT_ADD ? o + v : op == AT_SUB ? o - v : op == AT_OR ? o | v : op == AT_AND ? o & v : op == AT_XOR ? o ^ v : v;
    *p = n;
    VF_WROTE(p, AT_RMW, o, n, mo);
    return o;
}
static inline vf_atom vf_at_rmwv(vf_atom *p, vf_atom v, int op, int mo) { vf_at_rmw(p, v, op, mo); return *p; }
static int VF_SPURIOUS(void);
static inline int vf_at_cas(vf_atom *p, vf_atom *exp, vf_atom v, int ok, int fail, int weak)
{
    vf_atom o = VF_ENTER(p, AT_RMW, ok);
    if (o != *exp || (weak && VF_SPURIOUS())) { *exp = o; return 0; }
    *p = v;
    VF_WROTE(p, AT_RMW, o, v, ok);
    return 1;
}
#define VF_AP(p)                        ((vf_atom *)(p))
#define atomic_load_explicit(p, mo)     vf_at_load(VF_AP(p), mo)
#define atomic_load(p)                  vf_at_load(VF_AP(p), memory_order_seq_cst)
#define atomic_store_explicit(p, v, mo) vf_at_store(VF_AP(p), v, mo)
#define atomic_store(p, v)              vf_at_store(VF_AP(p), v, memory_order_seq_cst)
#define atomic_init(p, v)               ((void)(*VF_AP(p) = (v)))
#define atomic_fetch_add_explicit(p, v, mo) vf_at_rmw(VF_AP(p), v, AT_ADD, mo)
#define atomic_fetch_add(p, v)          vf_at_rmw(VF_AP(p), v, AT_ADD, memory_order_seq_cst)
#define atomic_fetch_sub_explicit(p, v, mo) vf_at_rmw(VF_AP(p), v, AT_SUB, mo)
#define atomic_fetch_sub(p, v)          vf_at_rmw(VF_AP(p), v, AT_SUB, memory_order_seq_cst)
#define atomic_exchange_explicit(p, v, mo) vf_at_rmw(VF_AP(p), v, AT_XCHG, mo)
#define atomic_exchange(p, v)           vf_at_rmw(VF_AP(p), v, AT_XCHG, memory_order_seq_cst)
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b)  vf_at_cas(VF_AP(p), VF_AP(e), v, a, b, 0)
#define atomic_compare_exchange_strong(p, e, v) vf_at_cas(VF_AP(p), VF_AP(e), v, memory_order_seq_cst, memory_order_seq_cst, 0)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b)    vf_at_cas(VF_AP(p), VF_AP(e), v, a, b, 1)
#define atomic_compare_exchange_weak(p, e, v)   vf_at_cas(VF_AP(p), VF_AP(e), v, memory_order_seq_cst, memory_order_seq_cst, 1)
static void VF_FENCE(int mo);
#define atomic_thread_fence(mo)         VF_FENCE(mo)
#define atomic_signal_fence(mo)         ((void)0)
#endif
