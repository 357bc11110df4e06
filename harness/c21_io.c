/* C21/C22/C23: the state file.  The file system is a stand-in that keeps the
 * text in memory; numbers in the text are opaque (see DESIGN.md).
 * MODE 1: save, free, load: the model comes back (C21)
 * MODE 2: save with failures at every system call (C22)
 * MODE 3: load of damaged files (C23) */
#include "vph.h"
#ifndef MODE
# define MODE 1
#endif
#ifndef NE
# define NE 2
#endif
#ifndef NM
# define NM 2
#endif
#define NLINE 40
#define LCAP VP_GSCAP_H
#ifndef VP_GSCAP
# define VP_GSCAP_H 160
#else
# define VP_GSCAP_H VP_GSCAP
#endif

/* ---------------------------------------------------------- file system */
static char *line[NLINE]; static int nline, rpos; static size_t lpos;
static int fd_open, fd_next = 5, tmp_exists, tmp_foreign, tmp_lines, target = 1; /* target: 0 none 1 old 2 new */
static _Bool wfail, unflushed, chan_alive, reading, complete;
static int calls, fail_at = -1, faults;
static char chan_mem[8];
static _Bool fails (void) { return calls++ == fail_at ? (faults = 1) : 0; }
static _Bool is_tmp (const char *p) { return !strcmp (p, "/s.tmp"); }
static void fresh (void) { for (int i = 0; i < NLINE; i++) { if (line[i]) free (line[i]); line[i] = NULL; } nline = 0; lpos = 0; }

int vp_open (const char *p, int flags, ...)
{
  VP_ASSERT (is_tmp (p), "the state file itself is never opened for writing");
  VP_ASSERT ((flags & O_ACCMODE) == O_WRONLY && (flags & O_CREAT), "the temporary file is created");
  if (fails ()) { errno = EACCES; return -1; }
  if (tmp_exists) {
    if (flags & O_EXCL) { errno = EEXIST; return -1; }
    VP_ASSERT (!tmp_foreign, "a file somebody else left at the temporary name is not written through");
  }
  VP_ASSERT (!fd_open, "one descriptor at a time");
  tmp_exists = 1; tmp_foreign = 0; complete = 0; wfail = 0; unflushed = 0; fresh ();
  return fd_open = fd_next++;
}
int vp_close (int fd) { VP_ASSERT (fd_open && fd == fd_open, "only the open descriptor is closed, once"); fd_open = 0; return 0; }
int vp_unlink (const char *p)
{
  VP_ASSERT (is_tmp (p), "only the temporary file is removed");
  if (fails ()) { errno = EACCES; return -1; }
  if (!tmp_exists) { errno = ENOENT; return -1; }
  tmp_exists = 0; tmp_foreign = 0;
  return 0;
}
int vp_rename (const char *a, const char *b)
{
  VP_ASSERT (is_tmp (a) && !strcmp (b, "/s"), "the temporary file replaces the state file");
  VP_ASSERT (tmp_exists && !tmp_foreign, "there is a file to rename");
  VP_ASSERT (!wfail && !unflushed, "the state file is replaced only by a completely written one");
  if (fails ()) { errno = EACCES; return -1; }
  tmp_exists = 0; target = 2;
  return 0;
}
int vp_fsync (int fd) { VP_ASSERT (fd == fd_open, "fsync of the open file"); return fails () ? -1 : 0; }
GIOChannel *vp_g_io_channel_unix_new (int fd)
{ VP_ASSERT (fd == fd_open && !chan_alive, "the channel writes to the new file"); chan_alive = 1; reading = 0; return (GIOChannel *) chan_mem; }
GIOChannel *vp_g_io_channel_new_file (const char *p, const char *m, GError **e)
{
  VP_ASSERT (!strcmp (p, "/s") && m[0] == 'r', "the state file is opened for reading");
  VP_ASSERT (!chan_alive, "one channel at a time");
  chan_alive = 1; reading = 1; rpos = 0;
  return (GIOChannel *) chan_mem;
}
static void chan_ok (GIOChannel *c) { VP_ASSERT (c == (GIOChannel *) chan_mem && chan_alive, "a live channel is used"); }
/* buffered: what was accepted reaches the file at the next flush; unref flushes and tells nobody about errors */
GIOStatus vp_g_io_channel_flush (GIOChannel *c, GError **e)
{
  chan_ok (c);
  if (fails ()) { wfail = 1; if (e) *e = vp_error_new (1, 1); return G_IO_STATUS_ERROR; }
  unflushed = 0;
  return G_IO_STATUS_NORMAL;
}
GIOStatus vp_g_io_channel_shutdown (GIOChannel *c, gboolean fl, GError **e)
{
  GIOStatus s = G_IO_STATUS_NORMAL;
  chan_ok (c);
  if (fl && !reading) s = vp_g_io_channel_flush (c, e);
  if (!reading && fd_open) vp_close (fd_open);
  return s;
}
void vp_g_io_channel_unref (GIOChannel *c)
{
  chan_ok (c); chan_alive = 0;
  if (!reading && unflushed) { if (fails ()) wfail = 1; unflushed = 0; }
}
GIOStatus vp_g_io_channel_write_chars (GIOChannel *c, const char *s, gssize n, gsize *w, GError **e)
{
  size_t k = n < 0 ? strlen (s) : (size_t) n;
  chan_ok (c); VP_ASSERT (!reading, "the channel was opened for writing");
  if (fails ()) { wfail = 1; if (e) *e = vp_error_new (1, 1); return G_IO_STATUS_ERROR; }
  unflushed = 1;
  for (size_t i = 0; i < k; i++) {
    VP_BOUND (nline < NLINE && lpos + 2 < LCAP, "state file size");
    if (!line[nline]) line[nline] = malloc (LCAP);
    line[nline][lpos++] = s[i]; line[nline][lpos] = 0;
    if (s[i] == '\n') { nline++; lpos = 0; }
  }
  if (w) *w = k;
  return G_IO_STATUS_NORMAL;
}
GIOStatus vp_g_io_channel_read_line_string (GIOChannel *c, GString *b, gsize *tp, GError **e)
{
  chan_ok (c); VP_ASSERT (reading, "the channel was opened for reading");
  g_string_truncate (b, 0);
  if (rpos >= nline) return G_IO_STATUS_EOF;
#if MODE == 3
  if (fails ()) { if (e) *e = vp_error_new (3, 1); return G_IO_STATUS_ERROR; }
#endif
  (g_string_append_len) (b, line[rpos], -1); rpos++;
  return G_IO_STATUS_NORMAL;
}
int vp_stat (const char *p, struct stat *st) { memset (st, 0, sizeof *st); st->st_mode = S_IFREG | 0755; return 0; }
static guint timers;
guint vp_g_timeout_add (guint ms, GSourceFunc f, gpointer data) { return ++timers; }
guint vp_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer data) { return ++timers; }
static _Bool fatal_ok;
void vp_fatal (void)
{
  VP_ASSERT (fatal_ok, "the daemon does not give up");
#if MODE == 3
  VP_REACH ("fatal");
#endif
}
static _Bool r[4]; static char *ep[4];
void proc_foreach (GHFunc func, gpointer data)
{ for (int i = 0; i < NE; i++) if (r[i]) for (int d = 0; d < 1 + (i == 0); d++) func (GINT_TO_POINTER (100 * (d + 1) + i), ep[i], data); }
void proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); }

#ifdef VP_CBMC
# define SAME(a, b) ((a) == (b))
#else
# define SAME(a, b) ((a) - (b) <= 1e-5 * fabs (a) && (b) - (a) <= 1e-5 * fabs (a))
#endif
static double real (double hi) { double d = vp_dbl (); VP_ASSUME (d >= 0 && d <= hi); return d; }

#if MODE == 1
static char *mp[4];
/* names of the programs and files: set by variant */
#ifndef PATHS
# define PATHS "/a", "/b", "/m0", "/m1"
#endif
static int tw[8], tn; static gint64 tseq[8], tpar[8], tid[8];
static void writer (gint64 id, gint64 seq, int count, gint64 parent, gpointer data) { VP_BOUND (tn < 8, "tree"); tid[tn] = id; tseq[tn] = seq; tw[tn] = count; tpar[tn] = parent; tn++; }

void vp_main (void)
{
  char *pool[4] = { PATHS };
  preload_exe_t *X[NE]; preload_map_t *M[NM]; preload_markov_t *mk = NULL;
  static const int masks[] = { MASKS }; int mask = masks[vp_pick (sizeof masks / sizeof *masks)];
  _Bool uses[NE][NM], mused[NM];
  int time; gint64 etime[NE], eupd[NE], mupd[NM], mktime = 0, mend, seqs[NE]; double prob[NE][NM], ttl[4]; int w[4][4]; size_t off[NM], len[NM];
  vp_state_init ();
  conf->system.prediction_algorithm = VOMM ? "VOMM" : "Markov";
  conf->model.cycle = 20; conf->system.autosave = 3600;
  time = state->time = vp_range (0, INT_MAX);
#if NM == 1
  off[0] = vp_range (0, 1LL << 46); len[0] = vp_range (0, 1LL << 46);
#else
  off[0] = 0; off[1] = 4096; len[0] = len[1] = vp_range (0, 1LL << 46);
#endif
  for (int i = 0; i < NE; i++) {
    ep[i] = pool[i];
    X[i] = preload_exe_new (ep[i], FALSE, NULL); X[i]->change_timestamp = -1;
    X[i]->time = etime[i] = vp_range (0, 1LL << 40); X[i]->update_time = eupd[i] = vp_range (-1, 1LL << 40);
    preload_state_register_exe (X[i], FALSE); seqs[i] = X[i]->seq;
  }
  for (int j = 0; j < NM; j++) {
    mp[j] = pool[2 + j];
    mused[j] = 0;
    M[j] = preload_map_new (mp[j], off[j], len[j]); M[j]->update_time = mupd[j] = vp_range (-1, 1LL << 40);
    preload_map_ref (M[j]);
    for (int i = 0; i < NE; i++) {
      prob[i][j] = 0;
      if ((uses[i][j] = mask >> (i * NM + j) & 1)) { preload_exemap_t *em = preload_exemap_new_from_exe (X[i], M[j]); em->prob = prob[i][j] = real (1); mused[j] = 1; }
    }
    preload_map_unref (M[j]);
  }
  _Bool hasmk = MARKOV;
  if (hasmk) {
    mk = preload_markov_new (X[0], X[NE - 1], FALSE); mk->time = mktime = vp_range (0, 1LL << 40);
    for (int s = 0; s < 4; s++) { mk->time_to_leave[s] = ttl[s] = real (1e9); for (int t = 0; t < 4; t++) mk->weight[s][t] = w[s][t] = vp_range (0, INT_MAX); }
  }
  if (BAD) g_hash_table_insert (state->bad_exes, g_strdup ("/tiny"), GINT_TO_POINTER (77));
  int tn0 = 0, tw0[8], te0[8], tp0[8];
  if (VOMM) {
    vomm_init ();
    for (int k = 0; k < VOMM; k++) vomm_update (X[vp_pick (NE)]);
    tn = 0; vomm_export_state (writer, NULL); tn0 = tn;
    for (int i = 0; i < tn; i++) { tw0[i] = tw[i]; te0[i] = tseq[i] == seqs[0] ? 0 : 1; tp0[i] = -1; for (int j = 0; j < i; j++) if (tid[j] == tpar[i]) tp0[i] = j; }
  }
  state->dirty = TRUE; target = 1;
  preload_state_save ("/s");
  VP_ASSERT (target == 2 && !state->dirty && !fd_open && !tmp_exists && !chan_alive, "a save without failures replaces the state file");
  preload_state_free ();
  /* a new daemon */
  for (int i = 0; i < NE; i++) r[i] = VOMM ? 0 : vp_pick (2);
  preload_state_load ("/s");
  VP_ASSERT (vp_critical == 0 && !chan_alive, "no internal precondition fails");
  VP_ASSERT ((state->time == time) & (state->last_accounting_timestamp == time) & (state->last_running_timestamp == time), "time goes on where it stopped");
  VP_ASSERT ((int) g_hash_table_size (state->exes) == NE, "the same number of programs");
  VP_ASSERT (g_hash_table_size (state->bad_exes) == 0, "programs set aside get another chance");
  int nm = 0, nr = 0;
  for (int j = 0; j < NM; j++) nm += mused[j];
  VP_ASSERT (((int) g_hash_table_size (state->maps) == nm) & ((int) state->maps_arr->len == nm), "the same number of maps");
  for (int i = 0; i < NE; i++) {
    preload_exe_t *e = g_hash_table_lookup (state->exes, ep[i]); int n = 0; size_t sz = 0;
    VP_ASSERT (e != NULL && !strcmp (e->path, ep[i]), "every program is back under its path");
    VP_ASSERT ((e->time == etime[i]) & (e->update_time == eupd[i]), "times of a program are back");
    VP_ASSERT (!!exe_is_running (e) == r[i], "running programs are found running");
    nr += r[i];
    for (int j = 0; j < NM; j++) if (uses[i][j]) {
      preload_exemap_t *em; int hit = 0;
      VP_ASSERT (n < (int) e->exemaps->len, "no map of a program is lost");
      for (int k = 0; k < (int) e->exemaps->len; k++) {
        em = g_ptr_array_index (e->exemaps, k);
#ifdef SAMEPATH
        if (em->map->offset != off[j]) continue;
#else
        if (strcmp (em->map->path, mp[j])) continue;
#endif
        hit++;
        VP_ASSERT (((strcmp (em->map->path, mp[j]) == 0)) & (em->map->offset == off[j]) & (em->map->length == len[j]) & (em->map->update_time == mupd[j]), "a map is back with its path, range and time");
        VP_ASSERT (em->map->refcount == (NE == 1 ? 1 : uses[0][j] + uses[NE - 1][j]), "a shared map is one map again");
        VP_ASSERT (SAME (em->prob, prob[i][j]), "the use probability is back");
      }
      VP_ASSERT (hit == 1, "every map of a program is back once");
      n++; sz += len[j];
    }
    VP_ASSERT (n == (int) e->exemaps->len, "no map of a program is new");
    VP_ASSERT (e->size == sz, "the size of a program is the sum of its maps");
    VP_ASSERT ((int) e->markovs->len == hasmk, "every pair statistics is back, at both programs");
    if (hasmk) {
      preload_markov_t *m = g_ptr_array_index (e->markovs, 0); _Bool same = 1;
      VP_ASSERT (((strcmp (m->a->path, ep[0]) == 0)) & ((strcmp (m->b->path, ep[NE - 1]) == 0)), "of the same pair");
      VP_ASSERT (m->time == mktime, "joint time is back");
      for (int s = 0; s < 4; s++) { same = same & SAME (m->time_to_leave[s], ttl[s]); for (int t = 0; t < 4; t++) same = same & (m->weight[s][t] == w[s][t]); }
      VP_ASSERT (same, "transition counts and stays are back");
      VP_ASSERT (m->state == r[0] + 2 * r[NE - 1], "the pair is in the state of its programs");
      VP_ASSERT (m->change_timestamp == state->time, "the current stay starts now");
    }
  }
  int nl = 0;
  for (GSList *l = state->running_exes; l; l = l->next) nl++;
  VP_ASSERT (nl == nr, "every running program is listed once");
  preload_state_run (NULL);
  VP_ASSERT (timers == 1, "the cycle is started");
  if (VOMM) {
    _Bool used[8] = { 0 };
    tn = 0; vomm_export_state (writer, NULL);
    VP_ASSERT (tn == tn0, "the sequence model has the same number of sequences");
    int map[8];
    for (int i = 0; i < tn; i++) {
      preload_exe_t *e0 = g_hash_table_lookup (state->exes, ep[0]); int ex = tseq[i] == e0->seq ? 0 : 1, p = -1, h = -1;
      for (int j = 0; j < i; j++) if (tid[j] == tpar[i]) p = map[j];
      for (int j = 0; j < tn0; j++) if (!used[j] && te0[j] == ex && tp0[j] == p) h = j;
      VP_ASSERT (h >= 0, "every sequence is back");
      used[h] = 1; map[i] = h;
      VP_ASSERT (tw[i] == tw0[h], "with its count");
    }
  }
  preload_state_free ();
  VP_ASSERT (vp_critical == 0, "no internal precondition fails");
  VP_REACH ("end");
}
#elif MODE == 2
void vp_main (void)
{
  preload_exe_t *e; preload_map_t *m;
  vp_state_init ();
  conf->system.prediction_algorithm = "Markov";
  e = preload_exe_new ("/a", FALSE, NULL); preload_state_register_exe (e, FALSE);
#if MODEL == 0
  m = preload_map_new ("/m", 0, 4096); preload_exemap_new_from_exe (e, m);
  g_hash_table_insert (state->bad_exes, g_strdup ("/t"), GINT_TO_POINTER (77));
  vomm_init (); vomm_update (e);
#else
  (void) m;
  e = preload_exe_new ("/b", FALSE, NULL); preload_state_register_exe (e, TRUE);
#endif
  if ((tmp_exists = vp_pick (2))) tmp_foreign = 1;
  int stale = tmp_exists;
  /* which call fails */
  fail_at = FAT + vp_pick (8);
  state->dirty = TRUE; fatal_ok = 0;
  preload_state_save ("/s");
  VP_ASSERT (!fd_open && !chan_alive, "whatever fails, the file is closed");
  if (faults) {
    VP_ASSERT (target == 1 || target == 2, "the old or the complete new state is there");
    if (target == 1) VP_ASSERT (state->dirty, "a failed save is tried again");
  } else {
    VP_ASSERT (target == 2 && !state->dirty && !tmp_exists, "without a failure the new state is there");
    VP_BOUND (calls <= NCALL, "number of calls that can fail");
  }
  (void) stale;
  /* the next save succeeds (of an empty model: what it writes is C21's matter) */
  fail_at = -1; faults = 0; target = 1;
  state->dirty = TRUE;
  g_hash_table_destroy (state->exes); vomm_cleanup ();
  state->exes = g_hash_table_new_full (g_str_hash, g_str_equal, NULL, (GDestroyNotify) preload_exe_free);
  preload_state_save ("/s");
  VP_ASSERT (target == 2 && !state->dirty && !tmp_exists && !fd_open, "a later save succeeds");
  target = 1;
  preload_state_save ("/s");
  VP_ASSERT (target == 1 && !tmp_exists, "nothing is written when nothing changed");
  VP_REACH ("end");
}
#endif
