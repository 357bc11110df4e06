/* C30: battery detection over any set of batteries with any status text. */
#include "vph.h"
#include "power.h"
#ifndef L
# define L 14
#endif
#define NB 10
static _Bool exists[NB], readable[NB]; static int text[NB]; static char *given[NB]; static int freed;
static const char *pool[6] = { "Discharging\n", "Charging\n", "Full\n", " Discharging", "Not charging\n", "" };
static char raw[L + 1]; static int rawb = -1;
static int battery (const char *p)
{
  static const char pre[] = "/sys/class/power_supply/BAT";
  int n = sizeof pre - 1, i;
  VP_ASSERT (!strncmp (p, pre, n), "only batteries are asked");
#ifdef VP_CBMC
  { char *e; i = (int) strtol (p + n, &e, 10); VP_ASSERT (!strcmp (e, "/status"), "only the status is read"); }
#else
  i = atoi (p + n);
  VP_ASSERT (strstr (p, "/status"), "only the status is read");
#endif
  return i;
}
#ifdef RAW
# define STATE(i) (exists[i] ? readable[i] ? 1 : 0 : -1)
#else
/* decided when first asked: absent, unreadable, or one of the texts; at most two are there */
static int known[NB], there; static _Bool want;
static int st (int i)
{
  if (!known[i]) {
    known[i] = -1;
#ifdef TWO
    if (there < 2 && (i < 2 || i == 5 || i == 9) && vp_pick (2)) { there++; known[i] = 1 + vp_pick (3); text[i] = known[i] - 2; if (known[i] == 2 || known[i] == 5) want = 1; }
#else
    if (there < 1 && vp_pick (2)) { there++; known[i] = 1 + vp_pick (7); text[i] = known[i] - 2; if (known[i] == 2 || known[i] == 5) want = 1; }
#endif
  }
  return known[i] == -1 ? -1 : known[i] == 1 ? 0 : 1;
}
# define STATE(i) st (i)
#endif
gboolean vp_g_file_test (const char *p, GFileTest t) { int i = battery (p); return i >= 0 && i < NB && STATE (i) >= 0; }
gboolean vp_g_file_get_contents (const char *p, gchar **c, gsize *n, GError **e)
{
  int i = battery (p);
  if (i < 0 || i >= NB || STATE (i) < 1) { if (e) *e = vp_error_new (4, 1); return FALSE; }
  *c = given[i] = g_strdup (i == rawb ? raw : pool[text[i]]);
  if (n) *n = strlen (*c);
  return TRUE;
}
void vp_main (void)
{
#ifdef RAW
  _Bool want = 0;
  /* one battery with any text */
  rawb = vp_range (0, NB - 1); exists[rawb] = 1; readable[rawb] = 1;
  { int a = 0, b = 0; for (int i = 0; i < L; i++) raw[i] = vp_u8 ();
    for (int i = 0; i < L; i++) VP_ASSUME ((signed char) raw[i] >= 0);
    while (raw[a] == ' ' || raw[a] == '\t' || raw[a] == '\n' || raw[a] == '\r' || raw[a] == '\f' || raw[a] == 11) a++;
    static const char d[] = "Discharging"; _Bool ok = 1;
    for (int i = 0; i < 11; i++) { b = a + i < L ? raw[a + i] : 0; ok = ok && b == d[i]; if (!b) break; }
    if (ok) for (int i = a + 11; i < L; i++) { if (!raw[i]) break; if (!(raw[i] == ' ' || (raw[i] >= 9 && raw[i] <= 13))) ok = 0; }
    want = ok; }
#else
  _Bool res = !!preload_on_battery ();
  VP_ASSERT (!res || want, "on battery only when a battery is discharging");
  if (!res) {
    for (int i = 0; i < NB; i++) st (i);
    VP_ASSERT (!want, "on battery when a battery is discharging");
  }
  VP_REACH ("end"); VP_DONE ();
#endif
#ifdef RAW
  VP_ASSERT (!!preload_on_battery () == want, "on battery exactly when a battery is discharging");
  VP_REACH ("end");
#endif
}
