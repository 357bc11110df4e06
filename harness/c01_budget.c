/* C01/C02: which maps one prediction selects for prefetching.
 * preload_prophet_predict() with arbitrary bids (vomm_predict replaced by any
 * non-positive/positive values), arbitrary memory statistics, percentages,
 * map sizes and running set.  preload_readahead() records the request. */
#include "vph.h"
#ifndef NE
# define NE 3
#endif
#define NM NE
#ifdef SHARED
# define SHARING 1
#else
# define SHARING 0
#endif

static preload_memory_t mem;
static double bid[NE];
static preload_exe_t *E[NE];
static preload_map_t *M[NM];
static int calls, sel_n;
static preload_map_t *sel[NM + 1];

void vomm_predict (void) { for (int i = 0; i < NE; i++) if (!exe_is_running (E[i])) E[i]->lnprob += bid[i]; }
void proc_get_memstat (preload_memory_t *m) { *m = mem; }
int preload_readahead (preload_map_t **files, int n)
{
  VP_ASSERT (n >= 0 && n <= NM, "no more maps are requested than exist");
  calls++;
  for (int i = 0; i < NM; i++) if (i < n) sel[i] = files[i];
  sel_n = n;
  return n;
}

#ifndef SLACK
#define SLACK 400
#endif
#define KB(m) ((int64_t) (((m)->length + 1023) / 1024))
static int64_t clamp (int v) { return v > 100 ? 100 : v < -100 ? -100 : v; }

static void round_ (const int *pct, const int *ms)
{
  static char *en[4] = { "/e0", "/e1", "/e2", "/e3" }, *mn[4] = { "/m0", "/m1", "/m2", "/m3" };
  int64_t base, budget;
  _Bool run[NE];

  memset (conf, 0, sizeof (*conf));
  conf->system.prediction_algorithm = (char *) "VOMM";
  conf->model.cycle = 20;
  conf->model.memtotal = pct[0]; conf->model.memfree = pct[1];
  conf->model.memcached = pct[2]; conf->model.membuffers = pct[3];
  mem.total = ms[0]; mem.free = ms[1]; mem.available = ms[2]; mem.cached = ms[3]; mem.buffers = ms[4];
  VP_ASSUME (mem.free <= mem.total && mem.available <= mem.total && mem.cached <= mem.total && mem.buffers <= mem.total);

  calls = 0; sel_n = 0;
  vp_state_init ();
  state->time = 100; state->last_running_timestamp = 100;
  for (int i = 0; i < NM; i++) {
    M[i] = preload_map_new (mn[i], 0, vp_range (0, 1LL << 48));
    preload_map_ref (M[i]);
  }
  for (int i = 0; i < NE; i++) {
    run[i] = vp_bool ();
    E[i] = preload_exe_new (en[i], run[i], NULL);
    preload_exemap_new_from_exe (E[i], M[i]);
#ifdef SHARED
    if (i + 1 < NM) preload_exemap_new_from_exe (E[i], M[i + 1]);
    bid[i] = (double) vp_range (-128, 127) / 8;
#else
    bid[i] = vp_dbl ();
    VP_ASSUME (bid[i] >= -1e6 && bid[i] <= 1e6);
#endif
    preload_state_register_exe (E[i], FALSE);
  }

  preload_prophet_predict (NULL);

  /* the documented budget in kB; percentages may be applied to the exact
   * amount or to the amount in units of 100 kB (slack) */
  base = clamp (conf->model.memtotal) * (int64_t) (mem.total / 100)
       + clamp (conf->model.memfree) * (mem.available > 0 ? (int64_t) mem.available / 100 : (int64_t) (mem.free / 100));
  if (base < 0) base = 0;
  budget = base + clamp (conf->model.memcached) * (int64_t) (mem.cached / 100)
       + clamp (conf->model.membuffers) * (int64_t) (mem.buffers / 100);
  const int64_t slack = SLACK;

  VP_ASSERT (calls <= 1, "one prefetch request per prediction");
  if (!calls) sel_n = 0;
  _Bool in[NM];
  for (int j = 0; j < NM; j++) {
    in[j] = 0;
    for (int i = 0; i < NM; i++) if (i < sel_n && sel[i] == M[j]) { VP_ASSERT (!in[j], "no map is requested twice"); in[j] = 1; }
  }
#if PROP == 1
  for (int i = 0; i < NM; i++) if (i < sel_n) budget -= KB (sel[i]);
  if (sel_n)
    VP_ASSERT (budget >= -slack, "selected bytes within the documented memory budget");
  /* and the budget is used: the next most needed map did not fit */
  for (int j = 0; j < NM; j++) {
    if (in[j] || !(M[j]->lnprob < 0)) continue;
    _Bool best = 1;
    for (int k = 0; k < NM; k++) if (!in[k] && k != j && M[k]->lnprob <= M[j]->lnprob) best = 0;
    if (best)
      VP_ASSERT (KB (M[j]) > budget - slack, "a needed map that fits the budget is not left out");
  }
#else
  for (int j = 0; j < NM; j++) {
    /* the need of a map is the sum of the bids of the idle programs using it */
    double want = 0; _Bool idle = 0;
    for (int i = 0; i < NE; i++)
      if (i == j || (SHARING && i + 1 == j)) { if (run[i]) want += 1; else { want += bid[i]; idle = 1; } }
    VP_ASSERT (M[j]->lnprob == want || (want - M[j]->lnprob < 1e-6 && M[j]->lnprob - want < 1e-6), "a map's bid is the sum over the programs mapping it");
    if (in[j]) {
      VP_ASSERT (M[j]->lnprob < 0, "only maps with a bid in favour are requested");
      VP_ASSERT (idle, "a map only running programs use is never requested");
      for (int k = 0; k < NM; k++)
        if (!in[k]) VP_ASSERT (M[j]->lnprob <= M[k]->lnprob, "no map is requested ahead of a more needed one");
    }
  }
#endif
  VP_REACH ("end of prediction");
  if (sel_n == NM) VP_REACH ("every map selected");
  if (sel_n == 1) VP_REACH ("one map selected");
}

void vp_main (void)
{
#ifdef BIG
  /* concrete percentages and memory amounts, everything else symbolic */
  static const int t[][9] = { BIG };
  for (unsigned i = 0; i < sizeof t / sizeof t[0]; i++) round_ (t[i], t[i] + 4);
#else
  int pct[4], ms[5];
  for (int i = 0; i < 4; i++) pct[i] = vp_int ();
  for (int i = 0; i < 5; i++) ms[i] = (int) vp_range (0, MAXMEM);
  round_ (pct, ms);
#endif
}
