/* C25: the schedule of the daemon: the main loop is a stand-in that runs the
 * earliest due timer (ties in order of creation) and may deliver a reload of
 * the configuration between two of them.  What the timers do (scan, update,
 * predict, save) is recorded by stand-ins. */
#include "vph.h"
#ifndef K
# define K 5
#endif
#ifndef CYC
# define CYC 20, 5, 1, 90
#endif
#ifndef AUTO
# define AUTO 30
#endif
static int cyc[] = { CYC };
#define NCYC ((int) (sizeof cyc / sizeof cyc[0]))
#define NT 4
static struct { long due; GSourceFunc f; gpointer data; int chain; } T[NT];
static int nt, chain = -1; static long now;
static guint add (long delay, GSourceFunc f, gpointer d)
{
  VP_ASSERT (nt < NT, "timers do not pile up");
  VP_ASSERT (delay >= 0, "no timer in the past");
  T[nt].due = now + delay; T[nt].f = f; T[nt].data = d; T[nt].chain = chain >= 0 ? chain : delay ? 1 : 0; nt++;
  return 7;
}
guint vp_g_timeout_add (guint ms, GSourceFunc f, gpointer d) { VP_ASSERT (ms % 1000 == 0, "whole seconds"); return add (ms / 1000, f, d); }
guint vp_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer d) { return add (s, f, d); }
#ifdef VP_CBMC
_Bool vp_disp (void *f, int n, void *a, void *b, void *c, long *ret);
static int fire (GSourceFunc f, gpointer d) { long r = 0; VP_ASSERT (vp_disp ((void *) f, 1, d, NULL, NULL, &r), "a timer calls a function of the daemon"); return (int) r; }
#else
static int fire (GSourceFunc f, gpointer d) { return f (d); }
#endif

static int scans, updates, predicts, seq, scan_at, predict_at; static _Bool battery, pending_update;
gboolean preload_on_battery (void) { return battery = vp_pick (2); }
void preload_spy_scan (gpointer d) { VP_ASSERT (!pending_update, "every scan is followed by an update of the model before the next scan"); scans++; scan_at = ++seq; pending_update = 1; }
void preload_spy_update_model (gpointer d) { VP_ASSERT (pending_update, "the model is updated once after a scan"); updates++; pending_update = 0; }
void preload_prophet_predict (gpointer d) { predicts++; predict_at = ++seq; }
int preload_cleanup_invalid_entries (GHashTable *a, GHashTable *b) { return 0; }
static int saved; static _Bool save_fails;
char *preload_state_write_file (const char *f)
{
  VP_ASSERT (f && !strcmp (f, "/s"), "the model is saved to the state file");
  saved++; save_fails = vp_pick (2);
  return save_fails ? g_strdup ("no") : NULL;
}
void vp_main (void)
{
  _Bool file = FILE_GIVEN;
  int t0;
  char name[3] = { '/', 's', 0 };
  vp_state_init ();
  conf->system.prediction_algorithm = "Markov";
  conf->model.cycle = cyc[vp_pick (NCYC)]; conf->system.autosave = AUTO;
  conf->system.doscan = vp_pick (2); conf->system.dopredict = vp_pick (2);
  state->time = t0 = vp_range (0, 1 << 30);
  preload_state_run (file ? name : NULL);
  name[1] = 'x'; /* the daemon keeps a name of its own */
  VP_ASSERT (nt == 1 + file, "a cycle, and an autosave if there is a state file, are scheduled");
  for (int i = 0; i < NT; i++) if (i < nt) VP_ASSERT (T[i].chain ? T[i].due == AUTO : i == 0 || T[0].chain, "the first cycle starts at once, the first save after the interval");
  long begin = 0; int phase = 0, nauto = 0, cycle = conf->model.cycle; _Bool bat0 = 0;
  for (int k = 0; k < K; k++) {
    int best = 0, s0 = scans, p0 = predicts, u0 = updates, w0 = saved, c; _Bool d0 = state->dirty, pu = pending_update; long due = -1;
    for (int i = 1; i < NT; i++) if (i < nt && T[i].due < T[best].due) best = i;
    GSourceFunc f = T[best].f; gpointer data = T[best].data;
    now = T[best].due; c = T[best].chain;
    for (int i = 0; i + 1 < NT; i++) if (i >= best) T[i] = T[i + 1];
    nt--;
    battery = save_fails = 0;
#ifdef RELOAD
    { conf->system.doscan = vp_pick (2); conf->model.cycle = cyc[vp_pick (NCYC)]; }
#endif
    chain = c;
    VP_ASSERT (fire (f, data) == FALSE, "a timer that schedules its successor is not repeated itself");
    VP_ASSERT (nt == 1 + file, "every timer schedules exactly its successor");
    due = T[nt - 1].due;
    if (c) {
      VP_ASSERT (file && now == (long) ++nauto * AUTO && due == now + AUTO, "the model is saved every autosave interval");
      VP_ASSERT (saved == w0 + d0, "exactly a changed model is saved");
      VP_ASSERT (state->dirty == (d0 && save_fails), "a failed save is repeated");
      VP_ASSERT (scans == s0 && predicts == p0 && updates == u0, "saving does nothing else");
    } else {
      VP_ASSERT (saved == w0, "a cycle saves nothing");
      VP_ASSERT (state->time - t0 == due, "the time of the model is the time that passed");
      if (phase == 0) {
        bat0 = battery; begin = now; cycle = conf->model.cycle;
        VP_ASSERT (scans == s0 + (!battery && conf->system.doscan), "every cycle scans when enabled and not on battery");
        VP_ASSERT (predicts == p0 + (!battery && conf->system.dopredict), "every cycle predicts when enabled and not on battery");
        VP_ASSERT (predicts == p0 || scans == s0 || scan_at < predict_at, "the prediction uses the scan of its cycle");
        VP_ASSERT (updates == u0, "the model is updated in the second half");
        VP_ASSERT (scans == s0 ? state->dirty == d0 : state->dirty && state->model_dirty, "exactly a scan makes the model worth saving and updating");
        if (battery) VP_ASSERT (due >= now + 2 * cycle, "on battery the cycle is at least twice as long");
        else VP_ASSERT (due <= now + cycle, "the second half is within the cycle");
      } else {
        VP_ASSERT (scans == s0 && predicts == p0, "one scan per cycle");
        VP_ASSERT (updates == u0 + pu && !state->model_dirty, "every scan is followed by an update");
        if (!bat0 && cycle == conf->model.cycle) VP_ASSERT (due == begin + cycle, "a cycle takes the configured time");
        else VP_ASSERT (due > begin, "cycles take time");
      }
      phase = !phase;
    }
  }
  VP_REACH ("end");
}
