/*
 * One harness source, two readings.
 *
 *  VF_CBMC    goto-cc / CBMC: every VF_ND* is an unconstrained symbolic value,
 *             VF_ASSERT is a proof obligation, VF_ASSUME a precondition and
 *             VF_REACH a vacuity probe (an obligation that MUST fail).
 *  otherwise  gcc + ASan + UBSan: VF_ND* reads the tape written from the
 *             verifier's counterexample (or by the random driver),
 *             VF_ASSERT aborts the run with the obligation's name.
 */
#ifndef VF_H
#define VF_H

#include <ngx_config.h>
#include <ngx_core.h>

#ifdef VF_CBMC

extern unsigned long nondet_ulong(void);
static unsigned long vf_tape_value;

static inline unsigned long
vf_nd(void)
{
    unsigned long v = nondet_ulong();
    vf_tape_value = v;
    return v;
}

#define VF_ASSERT(c, name)  __CPROVER_assert((c), "VF " name)
#define VF_ASSUME(c)        __CPROVER_assume(c)
#define VF_REACH(name)      __CPROVER_assert(0, "REACH " name)
#define VF_OBJ_BASE(p)      ((u_char *) (p) - __CPROVER_POINTER_OFFSET(p))

#else

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern unsigned long vf_nd(void);
extern void vf_fail(const char *name, const char *file, int line);
extern void vf_infeasible(void);
extern int vf_is_random(void);
extern void vf_reached(const char *name);

#define VF_ASSERT(c, name)                                                    \
    do { if (!(c)) vf_fail(name, __FILE__, __LINE__); } while (0)
#define VF_ASSUME(c)        do { if (!(c)) vf_infeasible(); } while (0)
#define VF_REACH(name)      vf_reached(name)

#endif

#define VF_ND_U8()   ((u_char) vf_nd())
#define VF_ND_U16()  ((uint16_t) vf_nd())
#define VF_ND_U32()  ((uint32_t) vf_nd())
#define VF_ND_U64()  ((uint64_t) vf_nd())
#define VF_ND_BOOL() ((int) (vf_nd() & 1))

/* a value in [lo, hi] */
static inline unsigned long
vf_range(unsigned long lo, unsigned long hi)
{
    unsigned long v = vf_nd();
#ifndef VF_CBMC
    /* random tapes: fold into range; counterexample tapes are in range already */
    if (v < lo || v > hi) { v = lo + (hi - lo == ~0UL ? v : v % (hi - lo + 1)); }
#endif
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}

/* fill n bytes (n a compile-time constant in CBMC runs) */
static inline void
vf_fill(u_char *p, size_t n)
{
    size_t  i;

    for (i = 0; i < n; i++) {
        p[i] = (u_char) vf_nd();
    }
}

#endif
