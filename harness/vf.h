/*
 * vf.h - vocabulary of the abstract-interpretation harnesses.
 *
 * A harness is never compiled into a program or run: Frama-C/EVA
 * interprets it, together with /repo's current sources, over sets of
 * values. Every NONDET/BYTE below stands for *all* the values of its
 * range at once.
 */
#ifndef VF_H
#define VF_H 1
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include "__fc_builtin.h"
#include "vf_libc.h"
#include "vf_cfg.h"     /* bounds; written by lib/eva.py for each run */

/* values given to a pinned byte */
#ifndef PINS
#define PINS    { 1, ' ', 'a', '0', '"', ':', 127, -128, -1 }
#endif

/* reached on some abstract state  ==>  the property does not hold */
/*@ requires vf_fail: \false; assigns \nothing; */
extern void VF_fail(void);

/* must be reached on some abstract state: the rule is not vacuous */
/*@ requires vf_reach: 1 == 1; assigns \nothing; */
extern void VF_reach(void);

#define PROVE(c)        do { if (!(c)) VF_fail(); } while (0)

#define NONDET(lo, hi)  Frama_C_interval((lo), (hi))
#define BYTE()          ((char)Frama_C_interval(-128, 127))
#define UBYTE()         ((unsigned char)Frama_C_interval(0, 255))
#define NZBYTE()        ((char)(Frama_C_nondet(Frama_C_interval(-128, -1), Frama_C_interval(1, 127))))

/* one separate abstract state per value */
#define SPLIT(lo, hi)   Frama_C_interval_split((lo), (hi))
#define COIN()          Frama_C_interval_split(0, 1)

/* the last statement of a scene: join what its paths have in common */
#define VF_END          /*@ slevel merge; */ return

/* what a failing system call says: takes turns, also from scene to scene (vf_turn++) */
static int vf_turn, vf_errno;
#define VF_ERR(k)       ((((k) + vf_turn) & 1) ? EACCES : EIO)

#define NELEM(a)        ((int)(sizeof (a) / sizeof (a)[0]))

/* any string of exactly n bytes, none of them NUL, then a NUL. pat 0 and 1
 * together cover every nonzero value at every position */
#define NPAT    2
static inline void
vf_anystr(char *s, int n, int pat)
{
    for (int i = 0; i < n; i++) {
        if ((i + pat) & 1) s[i] = Frama_C_interval(-128, -1);
        else               s[i] = Frama_C_interval(1, 127);
    }
    s[n] = 0;
}

/* any n bytes */
static inline void
vf_anybuf(void *p, int n)
{
    unsigned char *s = (unsigned char *)p;
    for (int i = 0; i < n; i++) s[i] = UBYTE();
}

/*
 * Class strings: a string whose i-th byte is any byte of the value
 * interval [lo,hi] picked by digit i of 'code' in base ncls. Enumerating
 * code over 0 .. ncls^n - 1 covers every string over the union of the
 * classes.
 */
struct vf_cls { short lo, hi; };

static inline int
vf_pow(int b, int e)
{
    int r = 1;
    for (int i = 0; i < e; i++) r *= b;
    return r;
}

/*
 * mode 0: every byte is any value of its class.
 * mode 1: byte i is one value of its class, different for every position i
 *         (when the class is big enough): where a byte came from shows.
 * cv[i] receives the class of byte i.
 */
static inline void
vf_clsstr(char *s, unsigned char *cv, int n, int code, const struct vf_cls *c, int ncls, int mode)
{
    for (int i = 0; i < n; i++) {
        int k = code % ncls;
        code /= ncls;
        cv[i] = k;
        if (c[k].lo == c[k].hi)  s[i] = (char)c[k].lo;
        else if (mode)           s[i] = (char)(c[k].lo + i % (c[k].hi - c[k].lo + 1));
        else                     s[i] = (char)Frama_C_interval(c[k].lo, c[k].hi);
    }
    s[n] = 0;
}

/* 'out' may be the byte at position i of such a string */
static inline int
vf_is(char out, int i, int k, const struct vf_cls *c, int mode)
{
    if (mode || c[k].lo == c[k].hi)
        return out == (char)(c[k].lo + i % (c[k].hi - c[k].lo + 1));
    return out >= c[k].lo && out <= c[k].hi;
}
#endif
