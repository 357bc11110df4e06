/* C18/C19/C20: the sequence model (VOMM), driven through its public functions
 * and observed through vomm_export_state and the bids of programs.
 * MODE 1: K launches of NE programs, any sequence; the exported tree equals a
 *         reference built from the documentation.
 * MODE 2: a tree with arbitrary counts (imported): every bid is finite and at
 *         most zero, running programs get none.
 * MODE 3: K launches, any sequence, any set of running programs: the bids are
 *         the documented ones.
 * MODE 4: launches mixed with programs being deleted from disk. */
#include "vph.h"
#ifndef NE
# define NE 2
#endif
#ifndef K
# define K 4
#endif
#ifndef MODE
# define MODE 1
#endif
#define DEPTH 5
static char *path[4] = { "/a", "/b", "/c", "/d" };
static preload_exe_t *X[NE];
static _Bool gone[NE];

/* ------------------------------------------------ reference tree */
#define RN (2 + 3 * K)
static int rexe[RN], rpar[RN], rcnt[RN], rdep[RN], rn = 1, rctx, hist[K + 1], hn;
static int rchild (int p, int e)
{
  for (int i = 1; i < rn; i++) if (rpar[i] == p && rexe[i] == e) return i;
  return 0;
}
static int rget (int p, int e)
{
  int c = rchild (p, e);
  if (c) return c;
  rexe[rn] = e; rpar[rn] = p; rcnt[rn] = 0; rdep[rn] = rdep[p] + 1;
  return rn++;
}
static void rupdate (int e)
{
  if (rdep[rctx] >= DEPTH) rctx = 0;
  rctx = rget (rctx, e); rcnt[rctx]++;
  if (hn) { int c = rget (rget (0, hist[hn - 1]), e); rcnt[c]++; }
  hist[hn++] = e;
}
/* ------------------------------------------------ exported tree */
#define XN (RN + 4)
static gint64 xid[XN], xseq[XN], xpar[XN];
static int xcnt[XN], xn, xmap[XN];
static void writer (gint64 id, gint64 seq, int count, gint64 parent, gpointer data)
{
  VP_ASSERT (data == (gpointer) xid, "the writer's data is passed on");
  VP_ASSERT (xn < XN - 1, "no more nodes than launches can make");
  xid[xn] = id; xseq[xn] = seq; xcnt[xn] = count; xpar[xn] = parent; xn++;
}
static int exe_of_seq (gint64 s)
{
  for (int i = 0; i < NE; i++) if (!gone[i] && X[i]->seq == s) return i;
  return -1;
}
static void export (void) { xn = 0; vomm_export_state (writer, xid); }

static void learn_check (void)
{
  _Bool seen[RN] = { 0 };
  export ();
  for (int i = 0; i < xn; i++) {
    int p = xpar[i] == 0 ? 0 : -1, e = exe_of_seq (xseq[i]), r;
    VP_ASSERT (xid[i] != 0, "only the root has number 0");
    for (int j = 0; j < i; j++) { VP_ASSERT (xid[j] != xid[i], "node numbers are unique"); if (xid[j] == xpar[i]) p = xmap[j]; }
    VP_ASSERT (p >= 0, "a node is exported after its parent");
    VP_ASSERT (e >= 0, "a node names a known program");
    r = rchild (p, e);
    VP_ASSERT (r > 0, "only sequences that happened are in the tree");
    VP_ASSERT (!seen[r], "a sequence is in the tree once");
    seen[r] = 1; xmap[i] = r;
    VP_ASSERT (xcnt[i] == rcnt[r], "a sequence is counted as often as it happened");
  }
  for (int r = 1; r < rn; r++) VP_ASSERT (seen[r], "every sequence that happened is in the tree");
}

/* ------------------------------------------------ bids: log is a function
 * returning -3^slot, so that the sum tells which logs were added to whom */
#if (MODE == 3 || MODE == 2) && defined(VP_CBMC)
static double slotv[24]; static int nslot;
double vp_log_e (double x)
{
  double p = 1;
  VP_BOUND (nslot < 24, "number of logarithms");
  slotv[nslot] = x; nslot++;
  for (int i = 1; i < nslot; i++) p *= 3;
  return -p;
}
double vp_log1p (double x) { return vp_log_e (1 + x); }
double vp_exp (double x) { VP_BOUND (0, "exp"); return x; }
double vp_sqrt (double x) { VP_BOUND (0, "sqrt"); return x; }
double vp_expm1 (double x) { VP_BOUND (0, "expm1"); return x; }
/* balanced ternary digits of a bid: which logarithms it is the sum of */
static double got[24]; static int ng;
static void decode (double v)
{
  ng = 0;
  for (int i = 0; i < 24; i++) {
    double q = v / 3; int64_t t = (int64_t) (q < 0 ? q - 0.5 : q + 0.5); int d = (int) (v - 3 * (double) t);
    if (d == 1) got[ng++] = slotv[i];
    else if (d == -1) got[ng++] = 1 / slotv[i];
    v = (double) t;
  }
  VP_ASSERT (v == 0, "a bid is a sum of logarithms");
  for (int i = 0; i < ng; i++) VP_ASSERT (got[i] > 0 && got[i] <= 1, "every contribution raises the need of the program and is finite");
}
#elif MODE == 3
double log (double);
#endif
#if MODE == 3
#define NB 16
static double want[NE][NB]; static int nw[NE];
static void expect (int e, double factor) { want[e][nw[e]++] = factor; }
static double cap (double c) { return c > 0.99 ? 0.99 : c; }
static _Bool near (double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; }
static void bids_check (_Bool *run)
{
  int tot, g = 0, h0 = hn > DEPTH ? hn - DEPTH : 0;
  for (int h = h0; h <= hn; h++) {
    int c = h == hn ? rctx : rchild (0, hist[h]);
    tot = 0;
    if (!c) continue;
    for (int i = 1; i < rn; i++) if (rpar[i] == c) tot += rcnt[i];
    for (int i = 1; i < rn; i++) if (rpar[i] == c && !run[rexe[i]]) {
      expect (rexe[i], 1 - cap ((double) rcnt[i] / tot));
      if (h == hn) expect (rexe[i], 1 / 1.1);
    }
  }
  for (int i = 1; i < rn; i++) if (rdep[i] == 2) g += rcnt[i];
  for (int i = 1; i < rn; i++) if (rdep[i] == 2 && !run[rexe[i]]) expect (rexe[i], 1 - (0.1 + 0.4 * ((double) rcnt[i] / g)));
#ifdef VP_CBMC
  for (int e = 0; e < NE; e++) {
    decode (-X[e]->lnprob);
    VP_ASSERT (ng == nw[e], "as many contributions as documented");
    for (int i = 0; i < nw[e]; i++) {
      int a = 0, b = 0;
      for (int j = 0; j < nw[e]; j++) { a += near (want[e][j], want[e][i]); b += near (got[j], want[e][i]); }
      VP_ASSERT (a == b, "each contribution is the documented one");
    }
  }
#else
  for (int e = 0; e < NE; e++) {
    double s = 0;
    for (int i = 0; i < nw[e]; i++) s += vp_log_e (want[e][i]);
    VP_ASSERT (s - X[e]->lnprob < 1e-4 && s - X[e]->lnprob > -1e-4, "the bid is the documented one");
  }
#endif
}
#endif

#if MODE == 4
int vp_stat (const char *p, struct stat *st)
{
  memset (st, 0, sizeof *st);
  for (int i = 0; i < NE; i++) if (!strcmp (p, path[i])) {
    if (gone[i]) { errno = ENOENT; return -1; }
    st->st_mode = S_IFREG | 0755; return 0;
  }
  VP_BOUND (0, "stat of another file");
  return -1;
}
#endif

void vp_main (void)
{
  _Bool run[NE];
  vp_state_init ();
  state->time = 100; state->last_running_timestamp = 100;
  conf->system.prediction_algorithm = "VOMM";
  for (int i = 0; i < NE; i++) {
    X[i] = preload_exe_new (path[i], FALSE, NULL);
    preload_state_register_exe (X[i], FALSE);
  }
  VP_ASSERT (vomm_init (), "initialisation succeeds");
#if MODE == 1
  vomm_update (NULL);
  for (int k = 0; k < K; k++) { int e = vp_pick (NE); vomm_update (X[e]); rupdate (e); }
  learn_check ();
#elif MODE == 2
  /* root -> a -> b, a ; root -> b -> a : a saved tree with any counts */
  static const int cv[3] = { 0, 1, 1000000000 };
  vomm_import_node (1, X[0], 1, 0); vomm_import_node (2, X[1], cv[vp_pick (3)], 1); vomm_import_node (3, X[0], cv[vp_pick (3)], 1);
  vomm_import_node (4, X[1], 1, 0); vomm_import_node (5, X[0], cv[vp_pick (2)], 4);
  vomm_import_done ();
#ifdef H1
  vomm_update (X[H1]);
#endif
#ifdef H2
  vomm_update (X[H2]);
#endif
  for (int i = 0; i < NE; i++) { run[i] = vp_pick (2); X[i]->running_timestamp = run[i] ? 100 : 99; X[i]->lnprob = 0; }
  vomm_predict ();
  for (int i = 0; i < NE; i++) {
    double b = X[i]->lnprob;
#ifdef VP_CBMC
    decode (-b);
#else
    VP_ASSERT (b <= 0 && b > -1e6, "every contribution raises the need of the program and is finite");
#endif
    if (run[i]) VP_ASSERT (b == 0, "no bid for a running program");
  }
#elif MODE == 3
  for (int k = 0; k < K; k++) { int e = vp_pick (NE); vomm_update (X[e]); rupdate (e); }
  for (int i = 0; i < NE; i++) { run[i] = vp_pick (2); X[i]->running_timestamp = run[i] ? 100 : 99; X[i]->lnprob = 0; }
  vomm_predict ();
  for (int i = 0; i < NE; i++) if (run[i]) VP_ASSERT (X[i]->lnprob == 0, "no bid for a running program");
  bids_check (run);
#elif MODE == 4
  for (int k = 0; k < K; k++) {
    int e = vp_pick (NE);
    if (gone[e]) continue;
    if (vp_pick (2)) { vomm_update (X[e]); }
    else {
      gone[e] = 1;
      VP_ASSERT (preload_cleanup_invalid_entries (state->exes, state->maps) == 1, "a deleted program is removed");
    }
  }
  for (int i = 0; i < NE; i++) {
    VP_ASSERT (g_hash_table_contains (state->exes, path[i]) == !gone[i], "exactly the deleted programs are forgotten");
    if (!gone[i]) { X[i]->running_timestamp = 99; X[i]->lnprob = 0; }
  }
  vomm_predict ();
  for (int i = 0; i < NE; i++) if (!gone[i]) vomm_update (X[i]);
  export ();
  for (int i = 0; i < xn; i++) VP_ASSERT (exe_of_seq (xseq[i]) >= 0, "the saved model names known programs only");
#endif
  vomm_cleanup ();
  VP_ASSERT (vp_critical == 0, "no internal precondition fails");
  VP_REACH ("end");
}
