/* vp_native.c - replay mode: draws come from a counterexample file (or from
 * a seeded generator), assertions are executed. */
#define VP_NO_REDIRECT
#include "redirect.h"
#include "vp.h"
#include <inttypes.h>

static FILE *in;
static unsigned long draws;
static int reached, use_rng;
static uint64_t rng;
int vp_critical;

void vp_native_fail (const char *msg, const char *file, int line)
{
  fprintf (stderr, "VP_FAIL %s (%s:%d)\n", msg, file, line);
  fflush (stderr);
  _exit (66);
}
void vp_native_assume (const char *what, const char *file, int line)
{
  fprintf (stderr, "VP_ASSUME not satisfied: %s (%s:%d)\n", what, file, line);
  fflush (stderr);
  _exit (77);
}
void vp_native_reach (const char *what) { reached++; fprintf (stderr, "VP_REACH %s\n", what); }
void vp_native_done (void) { fflush (stderr); fprintf (stderr, "VP_DONE draws=%lu reached=%d\n", draws, reached); _exit (0); }
static uint64_t rnd (void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static uint64_t raw (void)
{
  char buf[80];
  draws++;
  if (use_rng) {
    uint64_t r = rnd ();
    switch (rnd () % 6) { case 0: return 0; case 1: return r & 3; case 2: return r & 255; case 3: return (uint64_t) (int64_t) (int32_t) r; case 4: return 1ULL << (r & 63); default: return r; }
  }
  if (!in || !fgets (buf, sizeof buf, in)) {
    fprintf (stderr, "VP_ASSUME replay file exhausted after %lu draws\n", draws);
    _exit (77);
  }
  return strtoull (buf, NULL, 16);   /* bit pattern */
}
int64_t vp_i64 (void) { return (int64_t) raw (); }
int vp_int (void) { return (int) raw (); }
unsigned vp_uint (void) { return (unsigned) raw (); }
uint8_t vp_u8 (void) { return (uint8_t) raw (); }
_Bool vp_bool (void) { return raw () & 1; }
double vp_dbl (void)
{
  uint64_t u = raw (); double d;
  if (use_rng) return (double) (int32_t) u / 8;
  memcpy (&d, &u, 8); return d;
}
int64_t vp_range (int64_t lo, int64_t hi)
{
  int64_t v = (int64_t) raw ();
  if (use_rng) { uint64_t w = (uint64_t) hi - (uint64_t) lo + 1; v = w ? (int64_t) ((uint64_t) lo + (uint64_t) v % w) : v; }
  if (v < lo || v > hi) vp_native_assume ("vp_range", __FILE__, __LINE__);
  return v;
}
int vp_pick (int n) { return (int) vp_range (0, n - 1); }
void g_return_if_fail_warning (const char *d, const char *f, const char *e) { vp_critical++; fprintf (stderr, "VP_CRITICAL %s: %s\n", f, e); }
/* the arithmetic the models use, natively the real functions */
double vp_log_e (double x) { return log (x); }
double vp_exp (double x) { return exp (x); }
double vp_sqrt (double x) { return sqrt (x); }
void vp_g_string_printf (GString *s, const char *fmt, ...) { va_list ap; va_start (ap, fmt); g_string_vprintf (s, fmt, ap); va_end (ap); }
GError *vp_error_new (GQuark dom, int code) { return g_error_new_literal (dom ? dom : 1, code, "E"); }

int main (int argc, char **argv)
{
  if (argc > 2 && !strcmp (argv[1], "--rng")) { use_rng = 1; rng = strtoull (argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull + 1; }
  else if (argc > 1) { in = fopen (argv[1], "r"); if (!in) { perror (argv[1]); return 2; } }
  vp_main ();
  vp_native_done ();
}
