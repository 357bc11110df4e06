/* C27: K scan/update cycles over NE programs (the first NK known at the
 * start), driven through preload_spy_scan and preload_spy_update_model; the
 * process table and the memory maps of processes are stand-ins, a reference
 * model runs alongside.  Explored path by path: which programs run is a
 * constant of the path; sizes, counts and times stay symbolic. */
#include "vph.h"
#ifndef NE
# define NE 2
#endif
#ifndef NK
# define NK 2
#endif
#ifndef K
# define K 2
#endif
#ifndef VOMM
# define VOMM 0
#endif
#ifndef CYCLE
# define CYCLE 20
#endif
static char *path[4] = { "/a", "/b", "/c", "/d" };
static _Bool r[NE], known[NE], bad[NE], was[NE];
static int dbl[NE];
static size_t sz1[NE], sz2[NE];
static int tme[NE], joint[NE][NE], w[4][4], pst, examined[NE], learned[NE];
static _Bool scanning;
static preload_exe_t *X (int i) { return g_hash_table_lookup (state->exes, path[i]); }

void proc_foreach (GHFunc func, gpointer data)
{
  VP_ASSERT (scanning, "the process table is read by the scan only");
  for (int i = 0; i < NE; i++) if (r[i])
    for (int d = 0; d <= dbl[i]; d++) {
      char buf[4]; buf[0] = '/'; buf[1] = path[i][1]; buf[2] = 0;
      func (GINT_TO_POINTER (100 * (d + 1) + i), buf, data);
    }
}
size_t proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **ex)
{
  int i = pid >= 200 ? pid - 200 : pid - 100;
  VP_ASSERT (i >= 0 && i < NE && r[i] && !known[i] && !bad[i], "only running programs of unknown kind are examined");
  if (ex) *ex = g_ptr_array_new ();
  examined[i]++;
  if (!maps) return sz1[i];
  /* the program may have ended meanwhile */
  if (vp_pick (2)) { VP_ASSUME (sz2[i] > 0); return 77; }
  VP_ASSUME (sz2[i] == 0);
  return 0;
}
void vomm_update (preload_exe_t *e)
{
  for (int i = 0; i < NE; i++) if (!strcmp (e->path, path[i])) learned[i]++;
}
static int markovs_between (preload_exe_t *a, preload_exe_t *b, preload_markov_t **m)
{
  int n = 0;
  for (int j = 0; j < 6; j++) if (j < (int) a->markovs->len) {
    preload_markov_t *x = g_ptr_array_index (a->markovs, j);
    if ((x->a == a && x->b == b) || (x->a == b && x->b == a)) { n++; *m = x; }
  }
  return n;
}
static int listed (preload_exe_t *e)
{
  int n = 0;
  for (GSList *l = state->running_exes; l; l = l->next) if (l->data == e) n++;
  return n;
}
void vp_main (void)
{
  preload_markov_t *m0;
  vp_state_init ();
#ifdef SZPICK
  conf->model.minsize = 2000000;
#else
  conf->model.minsize = vp_range (0, 1 << 30);
#endif
  conf->system.prediction_algorithm = VOMM ? "VOMM" : "Markov";
  state->time = 1000; state->last_accounting_timestamp = state->last_running_timestamp = 990;
  /* what a state file leaves behind */
  for (int i = 0; i < NK; i++) {
    preload_exe_t *e = preload_exe_new (path[i], FALSE, NULL); e->change_timestamp = -1; e->time = tme[i] = vp_range (0, 1 << 28); e->update_time = 0;
    preload_state_register_exe (e, FALSE); known[i] = 1;
  }
#if NK == 2
  m0 = preload_markov_new (X (0), X (1), FALSE);
  m0->time = joint[0][1] = vp_range (0, 1 << 28);
  { /* preload_state_load: running programs are found, pair states recomputed */
    was[0] = vp_pick (2); was[1] = vp_pick (2);
    for (int i = 0; i < 2; i++) if (was[i]) { X (i)->running_timestamp = 990; state->running_exes = g_slist_prepend (state->running_exes, X (i)); }
    m0->state = pst = was[0] + 2 * was[1]; m0->change_timestamp = 990;
  }
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) w[i][j] = m0->weight[i][j] = vp_range (0, 1 << 28);
#endif
  for (int c = 0; c < K; c++) {
    int acc = state->last_accounting_timestamp, first = K * c == 0;
    for (int i = 0; i < NE; i++) {
      r[i] = vp_pick (2); dbl[i] = 0;
#ifdef DBL
      if (i == DBL && r[i]) dbl[i] = vp_pick (2);
#endif
#ifdef SZPICK
      if (r[i] && !known[i] && !bad[i]) { int k = vp_pick (3); sz1[i] = k == 0 ? 0 : k == 1 ? 1999999 : 2000000; } else sz1[i] = 5;
#else
      sz1[i] = vp_range (0, 1LL << 31);
#endif
      sz2[i] = vp_range (0, 1); examined[i] = learned[i] = 0;
    }
    scanning = 1; preload_spy_scan (NULL); scanning = 0;
    VP_ASSERT (state->last_running_timestamp == state->time, "the scan is dated");
    for (int i = 0; i < NE; i++) {
      if (known[i]) {
        preload_exe_t *e = X (i);
        VP_ASSERT (e != NULL, "a scan forgets no program");
        VP_ASSERT (!!exe_is_running (e) == r[i], "after a scan a program counts as running iff it is in the process table");
        VP_ASSERT (listed (e) == r[i], "the list of running programs is the process table's, without duplicates");
        VP_ASSERT (learned[i] == (VOMM && r[i] && !was[i]), "each start of a known program is learned once");
      } else VP_ASSERT (learned[i] == 0, "an unknown program is not learned before it was examined");
      VP_ASSERT (examined[i] == 0, "the scan examines no memory maps");
    }
    state->time += CYCLE / 2;
    for (int i = 0; i < NE; i++) learned[i] = 0;
    preload_spy_update_model (NULL);
    VP_ASSERT (vp_critical == 0, "no internal precondition fails");
    for (int i = 0; i < NE; i++) {
      preload_exe_t *e = X (i); _Bool isk = e != NULL, isb = g_hash_table_contains (state->bad_exes, path[i]);
      VP_ASSERT (isk == (known[i] || (r[i] && !bad[i] && sz1[i] && sz1[i] >= (size_t) conf->model.minsize && sz2[i])), "a program becomes known iff it was examined while running and was large enough");
      VP_ASSERT (isb == (bad[i] || (r[i] && !known[i] && sz1[i] && sz1[i] < (size_t) conf->model.minsize)), "exactly the programs below the minimum size are set aside");
      VP_ASSERT (learned[i] == (VOMM && isk && !known[i]), "the start of a new program is learned once");
      VP_ASSERT (examined[i] <= (r[i] && !known[i] && !bad[i] ? 2 : 0), "only running unknown programs are examined");
      if (isk && !known[i]) tme[i] = 0;
      known[i] = isk; bad[i] = isb;
    }
    VP_ASSERT (state->last_accounting_timestamp == state->time, "accounting is up to date");
    int period = state->time - acc, nk = 0, nr = 0;
    for (int i = 0; i < NE; i++) if (known[i]) {
      preload_exe_t *e = X (i);
      nk++; nr += r[i];
      if (r[i]) tme[i] += period;
      VP_ASSERT (e->time == tme[i], "running time grows by the elapsed time while running");
      VP_ASSERT (!!exe_is_running (e) == r[i], "running status stays until the next scan");
      VP_ASSERT (listed (e) == r[i], "new programs join the running list once");
    }
    VP_ASSERT ((int) g_slist_length (state->running_exes) == nr, "the running list holds nothing else");
    VP_ASSERT ((int) g_hash_table_size (state->exes) == nk, "no other program is known");
    for (int i = 0; i < NE; i++) for (int j = i + 1; j < NE; j++) if (known[i] && known[j]) {
      preload_markov_t *m = NULL, *m2 = NULL; int s;
      VP_ASSERT (markovs_between (X (i), X (j), &m) == 1 && markovs_between (X (j), X (i), &m2) == 1 && m == m2, "every two known programs share exactly one chain");
      s = m->a == X (i) ? r[i] + 2 * r[j] : r[j] + 2 * r[i];
      VP_ASSERT (m->state == s, "the chain is in the state of its programs");
      if (r[i] && r[j]) joint[i][j] += period;
      VP_ASSERT (m->time == joint[i][j], "joint running time grows by the elapsed time while both run");
      VP_ASSERT (m->change_timestamp <= state->time, "no chain changes in the future");
      if (NK == 2 && i == 0 && j == 1) {
        if (pst != s) { w[pst][pst]++; w[pst][s]++; pst = s; }
        for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) VP_ASSERT (m->weight[x][y] == w[x][y], "transitions are counted as they happened");
      } else {
        int tot = 0;
        for (int x = 0; x < 4; x++) { int t = 0; for (int y = 0; y < 4; y++) { VP_ASSERT (m->weight[x][y] >= 0, "counts are not negative"); if (y != x) t += m->weight[x][y]; } VP_ASSERT (m->weight[x][x] == t, "departures are the sum of transitions"); tot += t; }
        VP_ASSERT (tot <= c + 1, "at most one transition per cycle");
      }
    }
    for (int i = 0; i < NE; i++) was[i] = known[i] && r[i];
    state->time += (CYCLE + 1) / 2;
    (void) first;
  }
  VP_REACH ("end");
}
