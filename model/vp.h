/* vp.h - interface between the harnesses and the two execution modes.
 *
 * VP_CBMC:   the harness and /repo's sources are compiled by goto-cc; every
 *            vp_* draw is a fresh symbolic variable, VP_ASSERT an assertion.
 * VP_NATIVE: the same harness and sources are compiled by gcc with ASan/UBSan
 *            and the real GLib; draws come from the counterexample file.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>

#ifdef VP_CBMC
# define VP_ASSERT(c, msg)  __CPROVER_assert((c), "VP " msg)
# define VP_ASSUME(c)       __CPROVER_assume(c)
# define VP_REACH(msg)      __CPROVER_assert(0, "VPREACH " msg)
# define VP_BOUND(c, msg)   __CPROVER_assert((c), "VPBOUND " msg)
# define VP_DONE()          __CPROVER_assume(0)
#else
void vp_native_fail (const char *msg, const char *file, int line);
void vp_native_assume (const char *what, const char *file, int line);
void vp_native_reach (const char *what);
void vp_native_done (void) __attribute__((noreturn));
# define VP_ASSERT(c, msg)  do { if (!(c)) vp_native_fail (msg, __FILE__, __LINE__); } while (0)
# define VP_ASSUME(c)       do { if (!(c)) vp_native_assume (#c, __FILE__, __LINE__); } while (0)
# define VP_REACH(msg)      vp_native_reach (msg)
# define VP_BOUND(c, msg)   VP_ASSUME(c)
# define VP_DONE()          vp_native_done ()
#endif

/* draws: every value of the type, unless a range is given */
int64_t  vp_i64 (void);
int      vp_int (void);
unsigned vp_uint (void);
uint8_t  vp_u8 (void);
_Bool    vp_bool (void);
double   vp_dbl (void);
/* lo <= result <= hi */
int64_t  vp_range (int64_t lo, int64_t hi);

/* 0 <= result < n (n <= 8), as a constant of the path when paths are explored
 * one by one (cbmc --paths): structure is then concrete, data stays symbolic */
int      vp_pick (int n);

/* the harness entry point */
void vp_main (void);
#endif
