/* C28: the time helpers, K calls in any order over any clock. */
#include "vph.h"
#include "time_utils.h"
#ifndef K
# define K 3
#endif
#ifdef NSV
# define NS NSV
# ifndef SMAX
#  define SMAX (1LL << 23)
# endif
#else
# define NS vp_range (0, 999999999)
# define SMAX 2000
#endif
static _Bool has_boot; static struct timespec cur, mono; /* with and without the time suspended */ static int asked, other; static _Bool fail_now, failed; static int boot_id;
int vp_clock_gettime (clockid_t id, struct timespec *ts)
{
  VP_ASSERT (id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC, "time since boot is asked for");
  if (id == CLOCK_BOOTTIME && !has_boot) { errno = EINVAL; return -1; }
  if (fail_now) { failed = 1; errno = EFAULT; return -1; }
  asked++;
  *ts = id == CLOCK_MONOTONIC ? mono : cur;
  return 0;
}
static void tick (void)
{ mono.tv_sec = vp_range (mono.tv_sec, SMAX); mono.tv_nsec = NS; cur.tv_sec = vp_range (cur.tv_sec, SMAX); cur.tv_nsec = NS; VP_ASSUME (cur.tv_sec > mono.tv_sec); }
void vp_main (void)
{
  int64_t last = -1;
  has_boot = BOOT; (void) boot_id; (void) other;
  mono.tv_sec = 0; tick ();
  for (int k = 0; k < K; k++) {
    int64_t s, ms, v; int what = vp_pick (3);
    s = has_boot ? cur.tv_sec : mono.tv_sec;
    fail_now = k > 0 && vp_bool (); failed = 0;
    if (what == 0) VP_ASSERT (!!preload_check_boottime_support () == has_boot, "support is what the kernel supports");
    else if (what == 1) {
      v = preload_get_boottime ();
      VP_ASSERT (v == (failed ? -1 : s), "seconds since boot, suspend included where the kernel can tell, -1 on failure");
    } else {
      v = preload_get_boottime_ms ();
      ms = (uint64_t) s * 1000 + (has_boot ? cur.tv_nsec : mono.tv_nsec) / 1000000;
      VP_ASSERT (v == (failed ? -1 : ms), "milliseconds since boot, suspend included where the kernel can tell, -1 on failure");
    }
    if (what == 1 && !failed) { VP_ASSERT (s >= last, "time does not run backwards"); last = s; }
    tick ();
  }
  VP_REACH ("end");
}
