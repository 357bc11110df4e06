/* C13: programs, maps and pairs over every history of programs coming and
 * going and sharing maps (path by path). */
#include "vph.h"
#ifndef NE
# define NE 3
#endif
#ifndef NM
# define NM 2
#endif
static char *en[3] = { "/a", "/b", "/c" }, *mn[3] = { "/m", "/n", "/o" };
static preload_exe_t *E[NE]; static size_t off[NM], len[NM]; static int users[NE][NM]; static int nreg; static gint64 eseq[NE]; static preload_map_t *M[NM];
void proc_foreach (GHFunc f, gpointer d) { }
static void consistent (void)
{
  int ne = 0, nm = 0;
  VP_ASSERT (vp_critical == 0, "no internal precondition fails");
  for (int i = 0; i < NE; i++) {
    preload_exe_t *e = g_hash_table_lookup (state->exes, en[i]);
    VP_ASSERT (e == E[i], "exactly the registered programs are found by path");
    if (!e) continue;
    ne++;
    size_t sz = 0; int n = 0, mk = 0;
    for (int j = 0; j < NM; j++) { sz += users[i][j] * len[j]; n += users[i][j]; }
    VP_ASSERT (e->size == sz && (int) e->exemaps->len == n, "the size of a program is the sum of its maps");
    for (int k = 0; k < NE; k++) if (k != i && E[k]) {
      int hits = 0; preload_markov_t *m = NULL, *o = NULL;
      for (int q = 0; q < (int) e->markovs->len; q++) { preload_markov_t *x = g_ptr_array_index (e->markovs, q); if (x->a == E[k] || x->b == E[k]) { hits++; m = x; } }
      for (int q = 0; q < (int) E[k]->markovs->len; q++) { preload_markov_t *x = g_ptr_array_index (E[k]->markovs, q); if (x->a == e || x->b == e) o = x; }
      VP_ASSERT (hits == 1 && m == o && (m->a == e || m->b == e), "every two programs share one pair");
      mk++;
    }
    VP_ASSERT ((int) e->markovs->len == mk, "no pair refers to a program that is gone");
    for (int k = 0; k < NE; k++) if (k != i && E[k]) VP_ASSERT (E[k]->seq != e->seq, "program numbers are unique");
    VP_ASSERT (e->seq == eseq[i], "a program keeps its number");
  }
  VP_ASSERT ((int) g_hash_table_size (state->exes) == ne, "no other program is registered");
  for (int j = 0; j < NM; j++) {
    int refs = 0, in = 0;
    for (int i = 0; i < NE; i++) refs += users[i][j];
    if (!refs) M[j] = NULL;
    if (!M[j]) continue;
    nm++;
    VP_ASSERT (M[j]->refcount == refs, "a map is held once by each use");
    VP_ASSERT (g_hash_table_lookup (state->maps, M[j]) != NULL, "a map in use is known");
    for (int q = 0; q < (int) state->maps_arr->len; q++) in += g_ptr_array_index (state->maps_arr, q) == M[j];
    VP_ASSERT (in == 1, "a map is listed once");
    for (int q = 0; q < j; q++) if (M[q]) VP_ASSERT (M[q]->seq != M[j]->seq, "map numbers are unique");
  }
  VP_ASSERT ((int) g_hash_table_size (state->maps) == nm && (int) state->maps_arr->len == nm, "no other map is known");
}
static int pairs_seen;
static void seen (gpointer m, gpointer d) { VP_ASSERT (d == (gpointer) &pairs_seen, "the data is passed on"); pairs_seen++; }
void vp_main (void)
{
  vp_state_init ();
  conf->system.prediction_algorithm = "Markov";
  state->time = 1000; state->last_running_timestamp = state->time;
  for (int j = 0; j < NM; j++) { off[j] = 0; len[j] = 4096 + j; }
  for (int k = 0; k < K; k++) {
    int i = vp_pick (NE), n = 0;
    if (!E[i]) {
      /* a new program, with some maps, as the scan registers it */
      GPtrArray *a = NULL; int way = vp_pick (WAYS);
      for (int j = 0; j < NM; j++) users[i][j] = (way >> j) & 1;
      if (way & 4) a = g_ptr_array_new ();
      if (a) for (int j = 0; j < NM; j++) if (users[i][j]) {
        if (!M[j]) M[j] = preload_map_new (mn[j], off[j], len[j]);
        g_ptr_array_add (a, preload_exemap_new (M[j]));
      }
      E[i] = preload_exe_new (en[i], (way & 2) != 0, a);
      if (!a) for (int j = 0; j < NM; j++) if (users[i][j]) {
        if (!M[j]) M[j] = preload_map_new (mn[j], off[j], len[j]);
        preload_exemap_new_from_exe (E[i], M[j]);
      }
      preload_state_register_exe (E[i], TRUE); eseq[i] = E[i]->seq;
    } else {
      preload_state_unregister_exe (E[i]);
      E[i] = NULL;
      for (int j = 0; j < NM; j++) users[i][j] = 0;
    }
    consistent ();
    for (int q = 0; q < NE; q++) n += E[q] != NULL;
    pairs_seen = 0; preload_markov_foreach (seen, &pairs_seen);
    VP_ASSERT (pairs_seen == n * (n - 1) / 2, "every pair is visited once");
  }
  preload_state_free ();
  VP_ASSERT (vp_critical == 0, "no internal precondition fails");
  VP_REACH ("end");
}
