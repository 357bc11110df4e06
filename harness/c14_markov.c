/* C14/C15 one step of a pair's chain from an arbitrary valid pre-state, and
 * the correlation of a pair over arbitrary consistent times. */
#include "vph.h"
#ifndef WMAX
# define WMAX 3
#endif
#ifndef DMAX
# define DMAX 15
#endif
#ifndef MODE
# define MODE 1
#endif
static double dabs (double x) { return x < 0 ? -x : x; }
void vp_main (void)
{
  preload_exe_t *a, *b; preload_markov_t *m;
  vp_state_init ();
  a = preload_exe_new ("/a", FALSE, NULL); preload_state_register_exe (a, FALSE);
  b = preload_exe_new ("/b", FALSE, NULL); preload_state_register_exe (b, FALSE);
  m = preload_markov_new (a, b, FALSE);
  VP_ASSERT (m && a->markovs->len == 1 && b->markovs->len == 1 && g_ptr_array_index (a->markovs, 0) == m && g_ptr_array_index (b->markovs, 0) == m, "a pair is linked from both programs");
#if MODE == 1 || MODE == 2
  {
    int w0[4][4]; double t0[4];
    int now = vp_range (0, 1 << 30), last = vp_range (0, now), ch = vp_range (0, now), old = vp_range (0, 3), ra = vp_bool (), rb = vp_bool ();
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
# if MODE == 1
      w0[i][j] = vp_range (0, 1 << 30);
# else
      w0[i][j] = vp_range (0, WMAX);
# endif
      m->weight[i][j] = w0[i][j];
    }
# if MODE == 1
    for (int i = 0; i < 4; i++) m->time_to_leave[i] = t0[i] = vp_range (0, 1 << 20);
# else
    for (int i = 0; i < 4; i++) { m->time_to_leave[i] = t0[i] = vp_range (0, DMAX); }
    VP_ASSUME (now - ch <= DMAX);
# endif
    state->time = now; state->last_running_timestamp = last;
    a->running_timestamp = ra ? vp_range (last, now) : vp_range (-1, (int64_t) last - 1);
    b->running_timestamp = rb ? vp_range (last, now) : vp_range (-1, (int64_t) last - 1);
    m->state = old; m->change_timestamp = ch;
    int new_ = ra + 2 * rb;
    VP_ASSERT (markov_compute_state (m) == new_, "the state of a pair is which of the two is running");
    VP_ASSUME (old != new_ || ch == now);
    preload_markov_state_changed (m);
    VP_ASSERT (vp_critical == 0, "no internal precondition fails");
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
      int inc = old != new_ && i == old && (j == old || j == new_);
      VP_ASSERT (m->weight[i][j] == w0[i][j] + inc, "a change of state counts one departure and one transition, nothing else");
    }
    if (old == new_) {
      VP_ASSERT (m->state == old && m->change_timestamp == ch, "a second notification in the same moment changes nothing");
      for (int i = 0; i < 4; i++) VP_ASSERT (m->time_to_leave[i] == t0[i], "no departure, no new mean");
      VP_REACH ("same moment");
    } else {
      VP_ASSERT (m->state == new_ && m->change_timestamp == now, "the new state is entered now");
      for (int i = 0; i < 4; i++) if (i != old) VP_ASSERT (m->time_to_leave[i] == t0[i], "means of other states stay");
# if MODE == 2
      double n = w0[old][old] + 1, got = m->time_to_leave[old] * n, want = t0[old] * w0[old][old] + (now - ch);
      VP_ASSERT (dabs (got - want) < 1e-6, "the mean time to leave is the average of the observed stays");
# endif
      VP_REACH ("changed");
    }
  }
#endif
#if MODE == 3
  {
    int t = vp_range (1, DMAX), ta = vp_range (0, t), tb = vp_range (0, t), ab = vp_range (0, ta);
    VP_ASSUME (ab <= tb && ta + tb - ab <= t);
    state->time = t; a->time = ta; b->time = tb; m->time = ab;
    double c = preload_markov_correlation (m);
    VP_ASSERT (c >= -1.00001 && c <= 1.00001, "a correlation lies in [-1,1]");
    if (ta == 0 || ta == t || tb == 0 || tb == t) VP_ASSERT (c == 0, "no correlation with a program that always or never runs");
    else {
      int num = t * ab - ta * tb;
      VP_ASSERT (num > 0 ? c > 0 : num < 0 ? c < 0 : c == 0, "the sign of a correlation is the sign of the covariance");
      if (ta == tb && ab == ta) VP_ASSERT (c > 0.9999, "programs always running together are fully correlated");
      if (ab == 0 && ta + tb == t) VP_ASSERT (c < -0.9999, "programs never running together but always one of them are fully anticorrelated");
    }
    VP_REACH ("end");
  }
#endif
#if MODE == 4
  { /* times of a damaged state file need not be consistent */
    state->time = vp_range (0, DMAX); a->time = vp_range (0, DMAX); b->time = vp_range (0, DMAX); m->time = vp_range (0, DMAX);
    double c = preload_markov_correlation (m);
    VP_ASSERT (c >= -1.00001 && c <= 1.00001, "a correlation lies in [-1,1] whatever the recorded times");
    VP_REACH ("end");
  }
#endif
}
