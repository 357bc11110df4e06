/* C17: the bids of the pair statistics, against the documented formula.
 * The relevant numbers of each pair are picked (path by path), all others are
 * arbitrary; exp and log are series, exact to 1e-9, under CBMC. */
#include "vph.h"
#ifndef NE
# define NE 2
#endif
#ifdef VP_CBMC
double vp_exp (double x) { double r = 1, t = 1; int k = 0; while (x < -0.5) { x /= 2; k++; } for (int i = 1; i < 14; i++) { t *= x / i; r += t; } for (int i = 0; i < 12; i++) if (i < k) r *= r; return r; }
double vp_log_e (double x)
{
  double y, t, r = 0; int k = 0;
  if (!(x > 0)) return -1e300;
  while (x < 0.7) { x *= 2; k++; }
  y = (x - 1) / (x + 1); t = y;
  for (int i = 1; i < 20; i += 2) { r += t / i; t *= y * y; }
  return 2 * r - k * 0.69314718055994530942;
}
double vp_log1p (double x) { return vp_log_e (1 + x); }
double vp_expm1 (double x) { return vp_exp (x) - 1; }
# define EXP vp_exp
# define LOG vp_log_e
#else
# include <math.h>
# define EXP exp
# define LOG log
#endif
/* departures, and how many of them went to a joint state; mean stay */
static const struct { int n, to[4]; double stay; } T[] = {
  { 4, { 1, 1, 1, 1 }, 60 }, { 0, { 0, 0, 0, 0 }, 0 }, { 7, { 0, 0, 0, 7 }, 5 }, { 1, { 0, 1, 0, 0 }, 1000 },
  { 200, { 40, 100, 35, 25 }, 30.5 }, { 1000000, { 0, 300000, 700000, 0 }, 3 }, { 3, { 3, 0, 0, 0 }, 12 }, { 5, { 0, 0, 5, 0 }, 1e7 },
};
static const double C[] = { 1, -0.5, 0, 0.03125, -1 };
static int corr_of[3]; static preload_markov_t *mk[3]; static int nmk;
double preload_markov_correlation (preload_markov_t *m)
{
  for (int i = 0; i < nmk; i++) if (mk[i] == m) return C[corr_of[i]];
  VP_ASSERT (0, "the correlation of a pair is asked for");
  return 0;
}
static int calls;
void proc_get_memstat (preload_memory_t *m) { memset (m, 0, sizeof *m); m->total = m->free = m->available = 1000000; }
int preload_readahead (preload_map_t **f, int n) { calls++; return n; }
void vp_main (void)
{
  static char *nm[3] = { "/a", "/b", "/c" };
  preload_exe_t *e[NE]; _Bool run[NE]; double want[NE]; int pi[3], pj[3];
  vp_state_init ();
  conf->system.prediction_algorithm = "Markov";
  conf->model.cycle = CYCLE; conf->model.usecorrelation = USECORR; conf->model.memfree = 50;
  state->time = 1000; state->last_running_timestamp = 990;
  for (int i = 0; i < NE; i++) {
    run[i] = vp_pick (2); want[i] = 0;
    e[i] = preload_exe_new (nm[i], run[i], NULL);
    if (!run[i]) e[i]->running_timestamp = vp_range (-1, 989);
    e[i]->time = vp_range (0, 1000); e[i]->lnprob = -5; /* of the last prediction */
    preload_state_register_exe (e[i], FALSE);
  }
  for (int i = 0; i < NE; i++) for (int j = i + 1; j < NE; j++) {
    preload_markov_t *m = preload_markov_new (e[i], e[j], FALSE); int s = run[i] + 2 * run[j], t = vp_pick (NT);
    t = TUPLES[t];
    for (int a = 0; a < 4; a++) {
      m->time_to_leave[a] = a == s ? T[t].stay : 7.5;
      for (int b = 0; b < 4; b++) m->weight[a][b] = a != s ? vp_int () : b == s ? T[t].n : T[t].to[b];
    }
    m->state = s; m->time = vp_range (0, 1000); m->change_timestamp = vp_range (0, 1000);
    pi[nmk] = i; pj[nmk] = j; corr_of[nmk] = USECORR ? vp_pick (NC) : 0;
    mk[nmk++] = m;
    for (int q = 0; q < 2; q++) if (!run[q ? j : i]) {
      double p = T[t].n ? (T[t].to[q + 1] * (s != q + 1) + T[t].to[3] * (s != 3)) / (T[t].n + 0.01) : 0, c = C[corr_of[nmk - 1]];
      if (c < 0) c = -c;
      if (!USECORR) c = 1;
      if (T[t].n) want[q ? j : i] += LOG (1 - c * (1 - EXP (-CYCLE * 1.5 / T[t].stay)) * p);
    }
  }
  preload_prophet_predict (NULL);
  for (int i = 0; i < NE; i++) {
    double d = e[i]->lnprob - want[i], tol = -want[i] * 0.001 + 1e-9;
    if (run[i]) VP_ASSERT (e[i]->lnprob == 0, "a running program gets no bid");
    else VP_ASSERT ((d <= tol) & (d >= -tol), "the bid is the documented probability");
    VP_ASSERT (e[i]->lnprob <= 0, "a bid never speaks against a program");
  }
  (void) pi; (void) pj;
  VP_REACH ("end");
}
