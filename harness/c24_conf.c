/* C24: loading and reloading the configuration.  The parsed file is a
 * stand-in: every documented key is missing, has a value or an invalid one. */
#include "vph.h"
#ifndef LOADS
# define LOADS 2
#endif
enum { INT, BOOL, STR, LIST };
/* the documentation: doc/README.md, preload.conf */
static const struct { const char *grp, *key; int type, def; } K[] = {
  { "model", "cycle", INT, 20 }, { "model", "usecorrelation", BOOL, 1 }, { "model", "minsize", INT, 2000000 },
  { "model", "memtotal", INT, -10 }, { "model", "memfree", INT, 50 }, { "model", "memcached", INT, 0 }, { "model", "membuffers", INT, 50 },
  { "system", "doscan", BOOL, 1 }, { "system", "dopredict", BOOL, 1 }, { "system", "autosave", INT, 3600 },
  { "system", "mapprefix", LIST, 0 }, { "system", "exeprefix", LIST, 0 }, { "system", "prediction_algorithm", STR, 0 },
  { "system", "processes", INT, 30 }, { "system", "sortstrategy", INT, 3 },
};
#define NK ((int) (sizeof K / sizeof K[0]))
enum { MISSING, VALID, INVALID };
static int st[NK], val[NK];
static int alias = -1;           /* the value given to an older name of "processes" */
static const char *algos[3] = { "VOMM", "Markov", "\"VOMM\"" };
static const char *lists[3][2] = { { "/usr/", "!/" }, { "!/x", NULL }, { NULL, NULL } };
static char kf_mem[8]; static int alive; static _Bool unreadable;
GKeyFile *vp_g_key_file_new (void) { alive++; return (GKeyFile *) kf_mem; }
void vp_g_key_file_free (GKeyFile *k) { VP_ASSERT (k == (GKeyFile *) kf_mem && alive == 1, "the file is freed once"); alive--; }
gboolean vp_g_key_file_load_from_file (GKeyFile *k, const char *p, GKeyFileFlags f, GError **e)
{
  VP_ASSERT (!strcmp (p, "/c"), "the configured file is read");
  if (unreadable) { *e = vp_error_new (4, 4); return FALSE; }
  return TRUE;
}
static int find (const char *g, const char *key)
{
  for (int i = 0; i < NK; i++) if (!strcmp (key, K[i].key)) return strcmp (g, K[i].grp) ? -1 : i;
  return !strcmp (key, "maxprocs") && !strcmp (g, "system") ? alias : -1;
}
static int get (const char *g, const char *key, int type, GError **e)
{
  int i = find (g, key);
  VP_ASSERT (alive == 1, "an open file is read");
  VP_ASSERT (!e || !*e, "errors are not piled up");
  if (i < 0 || st[i] == MISSING) { if (e) *e = vp_error_new (G_KEY_FILE_ERROR, G_KEY_FILE_ERROR_KEY_NOT_FOUND); return -1; }
  if (type >= 0) VP_ASSERT (K[i].type == type, "a key is read as what it is");
  if (st[i] == INVALID && type >= 0) { if (e) *e = vp_error_new (G_KEY_FILE_ERROR, G_KEY_FILE_ERROR_INVALID_VALUE); return -1; }
  return i;
}
gint vp_g_key_file_get_integer (GKeyFile *k, const char *g, const char *key, GError **e) { int i = get (g, key, INT, e); return i < 0 ? 0 : val[i]; }
gboolean vp_g_key_file_get_boolean (GKeyFile *k, const char *g, const char *key, GError **e) { int i = get (g, key, BOOL, e); return i < 0 ? 0 : val[i]; }
gchar *vp_g_key_file_get_string (GKeyFile *k, const char *g, const char *key, GError **e) { int i = get (g, key, STR, e); return i < 0 ? NULL : g_strdup (algos[val[i]]); }
gchar *vp_g_key_file_get_value (GKeyFile *k, const char *g, const char *key, GError **e) { int i = get (g, key, -1, e); return i < 0 ? NULL : g_strdup (K[i].key); }
gboolean vp_g_key_file_has_key (GKeyFile *k, const char *g, const char *key, GError **e) { int i = find (g, key); return i >= 0 && st[i] != MISSING; }
gboolean vp_g_key_file_has_group (GKeyFile *k, const char *g) { return !strcmp (g, "model") || !strcmp (g, "system"); }
void vp_g_key_file_set_value (GKeyFile *k, const char *g, const char *key, const char *v) { VP_BOUND (!strcmp (key, "maxprocs"), "only an older name is set"); alias = find ("system", v); }
gchar **vp_g_key_file_get_string_list (GKeyFile *k, const char *g, const char *key, gsize *n, GError **e)
{
  int i = get (g, key, LIST, e), m = 0; gchar **r;
  if (i < 0) return NULL;
  r = g_malloc (3 * sizeof *r);
  r[0] = r[1] = r[2] = NULL;
  for (int j = 0; j < 2; j++) if (lists[val[i]][j]) { r[j] = g_strdup (lists[val[i]][j]); m++; }
  if (n) *n = m;
  return r;
}
static _Bool fatal_ok, critical;
void vp_fatal (void)
{
  VP_ASSERT (fatal_ok, "the daemon does not end over a configuration it can do without");
  VP_REACH ("fatal");
}
static _Bool list_is (char **l, int v)
{
  if (!l) return v < 0 || !lists[v][0];
  if (v < 0) return !l[0];
  for (int j = 0; j < 2; j++) { if (!lists[v][j]) return !l[j]; if (!l[j] || strcmp (l[j], lists[v][j])) return 0; }
  return !l[2];
}
static int want[NK]; /* what the documentation says is in force; strings: index, -1 for the default */
static void compare (void)
{
  int got[NK] = { conf->model.cycle, conf->model.usecorrelation, conf->model.minsize, conf->model.memtotal, conf->model.memfree, conf->model.memcached, conf->model.membuffers,
    conf->system.doscan, conf->system.dopredict, conf->system.autosave, 0, 0, 0, conf->system.maxprocs, conf->system.sortstrategy };
  for (int i = 0; i < NK; i++) {
    if (K[i].type == INT) VP_ASSERT (got[i] == want[i], "a number is in force");
    if (K[i].type == BOOL) VP_ASSERT (!!got[i] == !!want[i], "a switch is in force");
  }
  VP_ASSERT (list_is (conf->system.mapprefix, want[10]), "the map prefixes are in force");
  VP_ASSERT (list_is (conf->system.exeprefix, want[11]), "the program prefixes are in force");
  VP_ASSERT (!!preload_is_vomm_algorithm () == (want[12] != 1), "the prediction algorithm is in force");
}
void vp_main (void)
{
  char name[3] = "/c";
  for (int k = 0; k < LOADS; k++) {
    _Bool file = vp_bool (), bad = 0;
    unreadable = vp_bool (); alias = -1; alive = 0;
    for (int i = 0; i < NK; i++) {
      val[i] = K[i].type == INT ? vp_int () : K[i].type == BOOL ? vp_range (0, 1) : vp_range (0, 2);
      st[i] = vp_range (0, K[i].type == LIST || K[i].type == STR ? 1 : 2);
      bad = bad || st[i] == INVALID;
    }
    bad = file && (bad || unreadable);
    fatal_ok = bad && k == 0;
    preload_conf_load (file ? name : vp_bool () ? "" : NULL, k == 0);
    VP_ASSERT (!fatal_ok, "a configuration that cannot be read ends the start");
    if (!bad)
      for (int i = 0; i < NK; i++) want[i] = file && st[i] == VALID ? val[i] : K[i].type == INT || K[i].type == BOOL ? K[i].def : -1;
    compare ();
  }
  VP_REACH ("end");
}
