/* C08/C09: proc_get_maps() - what of /proc/PID/maps is recorded.
 * The lines are symbolic; the reference below is the documented meaning. */
#include "vph.h"
#define LINE 100
static char line[NL][LINE];
static int64_t st[NL], en[NL], of[NL];
static char pth[NL][PL + 1];
static int nl, cur, fopens, fcloses, openfail;
static char pre[4]; static char *prefix[2];
static FILE *const F = (FILE *) line;

FILE *vp_fopen (const char *p, const char *m)
{
  size_t i = 6; 
  VP_ASSERT (!strncmp (p, "/proc/", 6), "the maps of the process are read");
  (void) i;
  if (openfail) { errno = EACCES; return NULL; }
  fopens++;
  return F;
}
char *vp_fgets (char *b, int n, FILE *f)
{
  VP_ASSERT (f == F && !fcloses, "reads from the open file");
  int l = cur++;
  if (l >= NL) return NULL;
  size_t i = 0;
  VP_BOUND (n >= LINE, "line buffer of at least LINE bytes");
  for (; i < LINE; i++) b[i] = line[l][i];
  return l < nl ? b : NULL;   /* decided last: keeps the text constant for the encoding */
}
int vp_fclose (FILE *f) { VP_ASSERT (f == F && fopens == 1 && !fcloses, "the file is closed once"); fcloses++; return 0; }

static _Bool wanted (int i, char *out)
{
  int n = 0, cut = -1;
  while (n < PL && pth[i][n]) n++;
  if (pth[i][0] != '/') return 0;
  for (int p = 0; p + 11 <= n; p++) if (!memcmp (pth[i] + p, ".#prelink#.", 11)) { cut = p; break; }
  if (cut < 0) for (int p = 0; p + 9 <= n; p++) if (!memcmp (pth[i] + p, "(deleted)", 9)) return 0;
  if (cut >= 0) n = cut;
  for (int k = 0; k < n; k++) out[k] = pth[i][k];
  out[n] = 0;
  if (conf->system.mapprefix && prefix[0]) {
    const char *s = pre; _Bool acc = 1;
    if (*s == '!') { acc = 0; s++; }
    _Bool m = 1;
    for (int k = 0; m && k < 4 && s[k]; k++) if (out[k] != s[k]) m = 0;
    if (m) return acc;
  }
  return 1;
}

void vp_main (void)
{
  static const char *const perm[3] = { "r-xp", "rw-s", "---p" };
  memset (conf, 0, sizeof (*conf));
  vp_state_init ();
  openfail = vp_bool ();
  nl = (int) vp_range (0, NL);
  for (int k = 0; k < 3; k++) pre[k] = (char) vp_u8 ();
  VP_ASSUME (pre[0]);
  if (vp_bool ()) prefix[0] = pre;
  conf->system.mapprefix = vp_bool () ? prefix : NULL;
  for (int i = 0; i < NL; i++) {
    size_t o = 0;
    st[i] = vp_range (0, (1LL << 47) - 1); en[i] = vp_range (0, 1LL << 47); of[i] = vp_range (0, 1LL << 50);
    VP_ASSUME (st[i] < en[i]);
    int nchar = 0;
#ifdef TEXT
    /* the path is built around the markers, in one of the listed orders */
    static const char *const piece[] = { TEXT };
    int which = (int) vp_range (0, sizeof piece / sizeof piece[0] - 1);
    char c1 = (char) vp_u8 ();
    VP_ASSUME ((unsigned char) c1 > ' ');
    for (unsigned w = 0; w < sizeof piece / sizeof piece[0]; w++)
      if (which == (int) w) {
        nchar = (int) strlen (piece[w]);
        for (int k = 0; k < PL; k++) pth[i][k] = k < nchar ? piece[w][k] : 0;
      }
    if (nchar > 1) pth[i][1] = c1;
#elif PROP == 9
    /* one of five names: two plain files, a deleted one, an anonymous map, none */
    static const char nm[5][3] = { "/a", "/b", "/c", "[h", "" };
    int which = (int) vp_range (0, 4);
    for (int w = 0; w < 5; w++) if (which == w) for (int k = 0; k < 2; k++) pth[i][k] = nm[w][k];
    nchar = which == 4 ? 0 : 2;
#else
    nchar = (int) vp_range (0, PL);
    for (int k = 0; k < PL; k++) {
      char c = (char) vp_u8 ();
      VP_ASSUME (c && c != '\n' && (k > 0 || (unsigned char) c > ' '));
      pth[i][k] = k < nchar ? c : 0;
    }
#endif
    pth[i][PL] = 0;
    vp_text_hex (line[i], LINE, &o, st[i]); vp_text_s (line[i], LINE, &o, "-");
    vp_text_hex (line[i], LINE, &o, en[i]); vp_text_s (line[i], LINE, &o, " ");
    vp_text_s (line[i], LINE, &o, perm[PROP == 9 ? i % 3 : 0]); vp_text_s (line[i], LINE, &o, " ");
    vp_text_hex (line[i], LINE, &o, of[i]); vp_text_s (line[i], LINE, &o, " 08:1a 1234567");
    vp_text_s (line[i], LINE, &o, "      ");
    for (int k = 0; k < PL + 2; k++) line[i][o + k] = k < nchar ? pth[i][k] : k == nchar ? '\n' : 0;
    VP_BOUND (o + PL + 2 < LINE, "line length");
  }
  const _Bool usemaps = USE & 1, useex = USE >> 1;
#if PROP == 9
  /* a map that is already known */
  preload_map_t *known = preload_map_new ("/a", of[0], en[0] - st[0]);
  preload_map_ref (known);
  int known0 = known->refcount;
#endif
  GPtrArray *ex = NULL;
  size_t r = proc_get_maps (77, usemaps || useex ? state->maps : NULL, useex ? &ex : NULL);

  VP_ASSERT (fopens == fcloses, "the file is closed");
  size_t want = 0; int cnt = 0, ok = 1, sameasknown = 0;
  for (int i = 0; i < NL; i++) {
    char p[PL + 1];
    if (openfail || i >= nl || !wanted (i, p)) continue;
    want += en[i] - st[i];
    if (useex) {
      if (cnt >= (int) ex->len) ok = 0;
      else {
        preload_exemap_t *em = g_ptr_array_index (ex, cnt);
        VP_ASSERT (!strcmp (em->map->path, p), "a recorded map names the mapped file");
        VP_ASSERT (em->map->offset == (size_t) of[i] && em->map->length == (size_t) (en[i] - st[i]), "a recorded map has the mapped range");
        VP_ASSERT (g_hash_table_lookup (state->maps, em->map) != NULL, "a recorded map is registered");
#if PROP == 9
        if (!strcmp (p, "/a") && of[i] == of[0] && en[i] - st[i] == en[0] - st[0]) {
          sameasknown++;
          VP_ASSERT (em->map == known, "a known map is shared, not duplicated");
        }
#endif
      }
    }
    cnt++;
  }
  VP_ASSERT (r == want, "the size is the sum of the accepted maps");
  if (useex) VP_ASSERT (ex && ok && (int) ex->len == cnt, "one record per accepted line");
#if PROP == 9
  VP_ASSERT (known->refcount == known0 + sameasknown, "a reference per record is held on a shared map");
  /* dropping the records drops what they alone used */
  if (useex) {
    g_ptr_array_foreach (ex, (GFunc) preload_exemap_free, NULL);
    g_ptr_array_free (ex, TRUE);
  }
  VP_ASSERT (known->refcount == known0, "references are returned");
  VP_ASSERT (g_hash_table_size (state->maps) == 1 && state->maps_arr->len == 1, "maps without users are forgotten");
#endif
  VP_ASSERT (vp_critical == 0, "no internal precondition fails");
  if (cnt == NL) VP_REACH ("all accepted");
  if (!cnt) VP_REACH ("none accepted");
  VP_REACH ("end");
}
