/* C31: messages are shown up to the verbosity, fatal ones end the daemon;
 * opening and reopening the log file. */
#include "vph.h"
#include <time.h>
#ifndef MODE
# define MODE 1
#endif
static int shown, exits, exit_code; static _Bool in_handler;
static GLogFunc handler;
int vp_fprintf (FILE *f, const char *fmt, ...) { VP_ASSERT (f == stderr, "messages go to the log"); shown++; return 0; }
time_t vp_time (time_t *t) { return 5; }
char *vp_ctime (const time_t *t) { static char b[] = "Thu Jan  1 00:00:05 1970\n"; b[24] = '\n'; return b; }
static int lvl;
static void at_exit (void);
void vp_exit (int c) { exits++; exit_code = c; at_exit (); VP_DONE (); for (;;); }
void vp_fatal (void) { exits++; exit_code = 1; at_exit (); }
static int nfd_open, null_fd, log_fd, dup0, dup1, dup2_, fails; static _Bool nf, lf, df; static char *lname;
int vp_open (const char *p, int flags, ...)
{
  if (!strcmp (p, "/dev/null")) { if (nf) { fails++; errno = EMFILE; return -1; } nfd_open++; return null_fd = 10; }
  VP_ASSERT (!strcmp (p, lname), "the configured log file is opened");
  VP_ASSERT ((flags & O_ACCMODE) == O_WRONLY && (flags & O_APPEND) && (flags & O_CREAT) && !(flags & O_TRUNC), "the log is appended to");
  if (lf) { fails++; errno = EACCES; return -1; }
  nfd_open++; return log_fd = 11;
}
int vp_close (int fd) { VP_ASSERT (fd == 10 || fd == 11, "only its own descriptors are closed"); nfd_open--; return 0; }
int vp_dup2 (int a, int b)
{
  if (df) { fails++; errno = EBUSY; return -1; }
  if (b == 0) { VP_ASSERT (a == 10, "input comes from /dev/null"); dup0++; }
  else if (b == 1) { VP_ASSERT (a == 11, "output goes to the log"); dup1++; }
  else { VP_ASSERT (b == 2 && a == 11, "messages go to the log"); dup2_++; }
  return b;
}
static _Bool handler_set;
GLogFunc vp_set_default (GLogFunc f, gpointer d) { handler_set = 1; handler = f; return NULL; }
#ifdef VP_CBMC
GLogFunc g_log_set_default_handler (GLogFunc f, gpointer d) { return vp_set_default (f, d); }
#endif
static _Bool fatal_expected;
static void at_exit (void)
{
#if MODE == 1
  VP_ASSERT (fatal_expected && exit_code == EXIT_FAILURE && shown >= 1, "a fatal message ends the daemon with a failure, and a note");
  VP_REACH ("fatal");
#else
  VP_ASSERT (fails > 0 && fatal_expected, "only failures to open the log are fatal, and only at the start");
  VP_REACH ("no log");
#endif
}
void vp_main (void)
{
#if MODE == 1
  static const int levels[6] = { G_LOG_LEVEL_ERROR, G_LOG_LEVEL_CRITICAL, G_LOG_LEVEL_WARNING, G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_INFO, G_LOG_LEVEL_DEBUG };
  int v = vp_range (0, 10); _Bool fatal;
  preload_log_init (NULL);
# ifndef VP_CBMC
  handler = g_log_set_default_handler (NULL, NULL);
  handler = NULL;
# endif
  for (int k = 0; k < 2; k++) {
    char msg[3] = "m";
    lvl = vp_range (0, 5); fatal = vp_bool (); fatal_expected = fatal; v = vp_range (0, 10);
    preload_log_level = v; shown = 0;
# ifdef VP_CBMC
    VP_ASSERT (handler_set, "the daemon handles its messages");
    handler (vp_bool () ? "d" : NULL, levels[lvl] | (fatal ? G_LOG_FLAG_FATAL : 0), msg, NULL);
# else
    _Bool d = vp_bool ();
    g_log_set_always_fatal (fatal ? (GLogLevelFlags) levels[lvl] | G_LOG_LEVEL_ERROR : G_LOG_LEVEL_ERROR);
    (g_log) (d ? "d" : NULL, levels[lvl] | (fatal ? G_LOG_FLAG_FATAL : 0), "%s", msg);
# endif
    VP_ASSERT (!fatal, "a fatal message ends the daemon");
    VP_ASSERT (shown == (lvl <= v), "a message is shown exactly when the verbosity covers its level");
  }
  VP_REACH ("end");
#else
  char name[3] = "/l"; _Bool none = vp_bool ();
  lname = name;
  nf = vp_bool (); lf = vp_bool (); df = vp_bool ();
  fatal_expected = 1;
  preload_log_init (none ? (vp_bool () ? "" : NULL) : name);
  fatal_expected = 0;
  VP_ASSERT (fails == 0, "a log that cannot be opened stops the start");
  VP_ASSERT (dup0 == !none && dup1 == !none && dup2_ == !none, "standard input, output and error are redirected exactly if there is a log file");
  VP_ASSERT (nfd_open == 0, "no descriptor is left open");
# ifdef VP_CBMC
  VP_ASSERT (handler_set, "the daemon handles its messages");
# endif
  dup1 = dup2_ = dup0 = 0; lf = vp_bool (); df = vp_bool ();
  preload_log_reopen (none ? NULL : name);
  VP_ASSERT (dup0 == 0 && (dup1 == dup2_) && dup1 == (!none && !lf && !df), "reopening redirects the output to the new file, or keeps the old log");
  VP_ASSERT (nfd_open == 0, "no descriptor is left open");
  VP_REACH ("end");
#endif
}
