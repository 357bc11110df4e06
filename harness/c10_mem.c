/* C10: memory statistics from the text of /proc. */
#include "vph.h"
enum { TOTAL, FREE, AVAIL, BUFS, CACHED, SWAPC, ACT, INACT, ACTA, INACTA, ACTF, INACTF, NL };
static const char *tag[NL] = { "MemTotal:       ", "MemFree:    ", "MemAvailable:   ", "Buffers:          ", "Cached:          ", "SwapCached:     ", "Active:    ", "Inactive: ",
  "Active(anon):  ", "Inactive(anon):   ", "Active(file):    ", "Inactive(file): " };
static int64_t v[NL], pin, pout;
/* kernels: which lines there are, in order */
static const struct { int n, line[NL]; int vmstat, stat, mem; } kernel[] = {
  { 12, { TOTAL, FREE, AVAIL, BUFS, CACHED, SWAPC, ACT, INACT, ACTA, INACTA, ACTF, INACTF }, 1, 0, 1 },  /* since 3.14 */
  { 11, { TOTAL, FREE, BUFS, CACHED, SWAPC, ACT, INACT, ACTA, INACTA, ACTF, INACTF }, 1, 0, 1 },          /* since 2.6.28 */
  { 7, { TOTAL, FREE, BUFS, CACHED, SWAPC, ACT, INACT }, 0, 1, 1 },                                       /* 2.4 */
  { 2, { TOTAL, FREE }, 1, 0, 1 },
  { 12, { INACTF, ACTF, AVAIL, INACTA, ACTA, INACT, ACT, CACHED, BUFS, FREE, TOTAL, SWAPC }, 0, 0, 1 },
  { 12, { TOTAL, FREE, AVAIL, BUFS, CACHED, SWAPC, ACT, INACT, ACTA, INACTA, ACTF, INACTF }, 1, 1, 0 },   /* unreadable */
};
static int kn, cur, opened; static _Bool readfail;
int vp_open (const char *p, int flags, ...)
{
  VP_ASSERT (!opened && (flags & O_ACCMODE) == O_RDONLY, "one file at a time is read");
  cur = !strcmp (p, "/proc/meminfo") ? 1 : !strcmp (p, "/proc/vmstat") ? 2 : !strcmp (p, "/proc/stat") ? 3 : 0;
  VP_ASSERT (cur, "statistics come from /proc");
  if ((cur == 1 && !kernel[kn].mem && !readfail) || (cur == 2 && !kernel[kn].vmstat) || (cur == 3 && !kernel[kn].stat)) { errno = ENOENT; return -1; }
  opened = 1;
  return 9;
}
int vp_close (int fd) { VP_ASSERT (opened && fd == 9, "the open file is closed"); opened = 0; return 0; }
ssize_t vp_read (int fd, void *buf, size_t n)
{
  char *b = buf; size_t o = 0;
  VP_ASSERT (opened && fd == 9, "the open file is read");
  if (cur == 1 && !kernel[kn].mem) { errno = EIO; return -1; }
  if (cur == 1) for (int i = 0; i < kernel[kn].n; i++) { int l = kernel[kn].line[i]; vp_text_s (b, n, &o, tag[l]); vp_text_dec (b, n, &o, v[l]); vp_text_s (b, n, &o, " kB\n"); }
  if (cur == 2) { vp_text_s (b, n, &o, "nr_free 7\npgpgin "); vp_text_dec (b, n, &o, pin); vp_text_s (b, n, &o, "\npgpgout "); vp_text_dec (b, n, &o, pout); vp_text_s (b, n, &o, "\npswpin 3\n"); }
  if (cur == 3) { vp_text_s (b, n, &o, "cpu 1 2\npage "); vp_text_dec (b, n, &o, pin); vp_text_s (b, n, &o, " "); vp_text_dec (b, n, &o, pout); vp_text_s (b, n, &o, "\nswap 3 4\n"); }
  VP_BOUND (o < n, "text fits");
  return o;
}
int vp_getpagesize (void) { return PAGE; }
#define SAT(x) ((x) > INT_MAX ? INT_MAX : (int) (x))
void vp_main (void)
{
  preload_memory_t m; int64_t e[NL]; _Bool there[NL] = { 0 };
  kn = KN; readfail = kn == 5 && vp_pick (2);
  for (int i = 0; i < NL; i++) v[i] = vp_range (0, VMAX);
  /* the estimate is made of these: few values */
  if (kernel[kn].line[2] != AVAIL) { int64_t big = vp_pick (2) ? 40000000 : 0; v[CACHED] = big + vp_range (0, 255); v[BUFS] = big / 100 + vp_range (0, 255); }
  else if (kn != 5) VP_ASSUME (v[AVAIL] > 0);
  pin = vp_range (0, VMAX); pout = vp_range (0, VMAX);
  memset (&m, 0xff, sizeof m);
  proc_get_memstat (&m);
  VP_ASSERT (!opened, "no descriptor is left open");
  if (kernel[kn].mem) for (int i = 0; i < kernel[kn].n; i++) there[kernel[kn].line[i]] = 1;
  for (int i = 0; i < NL; i++) e[i] = there[i] ? SAT (v[i]) : 0;
  VP_ASSERT ((m.total == e[TOTAL]) & (m.free == e[FREE]) & (m.buffers == e[BUFS]) & (m.cached == e[CACHED]), "memory is as the kernel reports it");
  VP_ASSERT ((m.active == e[ACT]) & (m.inactive == e[INACT]) & (m.active_anon == e[ACTA]) & (m.inactive_anon == e[INACTA]) & (m.active_file == e[ACTF]) & (m.inactive_file == e[INACTF]), "lists are as the kernel reports them");
  int64_t guess = e[FREE] + e[CACHED] * 80 / 100 + e[BUFS] * 75 / 100;
  int64_t av = there[AVAIL] & (e[AVAIL] != 0) ? e[AVAIL] : e[FREE] ? SAT (guess) : 0;
  VP_ASSERT (m.available == av, "available memory is the kernel's estimate, or free and most of the reclaimable memory");
  _Bool pg = kernel[kn].vmstat || kernel[kn].stat; int f = PAGE / 1024;
  int64_t a = SAT (pin), b = SAT (pout);
  VP_ASSERT ((m.pagein == (pg ? SAT (a * f) : 0)) & (m.pageout == (pg ? SAT (b * f) : 0)), "paging is as the kernel reports it");
  VP_REACH ("end");
}
