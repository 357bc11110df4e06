/* C07 proc_foreach(): which processes are observed.
 * /proc is a stand-in with symbolic entry names, exe links and prefix lists. */
#include "vph.h"
#ifndef LL
# define LL 14
#endif
#define NE 2
static char dn[NE][5];
static char lk[NE][LL + 1];
static int kind[NE];          /* 0 short link, 1 error, 2 fills the buffer */
static int pos, opened, closed, self;
static char pre[2][4];
static char *prefix[3];
static struct dirent de;
static int nexp, exp_[NE], ngot;

DIR *vp_opendir (const char *p) { VP_ASSERT (!strcmp (p, "/proc"), "processes are listed from /proc"); opened++; return (DIR *) &de; }
struct dirent *vp_readdir (DIR *d)
{
  int e = pos++;
  if (e >= NE) return NULL;
  for (int i = 0; i < 5; i++) de.d_name[i] = dn[e][i];
  return &de;
}
int vp_closedir (DIR *d) { closed++; return 0; }
pid_t vp_getpid (void) { return self; }
ssize_t vp_readlink (const char *path, char *buf, size_t n)
{
  int i = pos - 1; size_t k = 0;
  VP_ASSERT (!strncmp (path, "/proc/", 6), "the link is the process's own"); 
  { size_t j = 0; while (dn[i][j] && path[6 + j] == dn[i][j]) j++;
    VP_ASSERT (!dn[i][j] && !strcmp (path + 6 + j, "/exe"), "the executable is read from /proc/PID/exe"); }
  VP_ASSERT (n <= FILELEN, "the link fits the buffer");
  if (kind[i] == 1) { errno = EACCES; return -1; }
  if (kind[i] == 2) { memset (buf, 'a', n); buf[0] = '/'; return n; }
  for (; k < LL && lk[i][k]; k++) buf[k] = lk[i][k];
  return k;
}
/* the reference: deleted files are out, prelink's renamed files are taken for
 * the original, the first matching prefix decides, no match accepts */
static _Bool wanted (int i, char *out)
{
  int n = 0, cut = -1;
  for (int k = 0; k < 4 && dn[i][k]; k++) if (dn[i][k] < '0' || dn[i][k] > '9') return 0;
  int pid = 0;
  for (int k = 0; k < 4 && dn[i][k]; k++) pid = pid * 10 + dn[i][k] - '0';
  if (pid == self) return 0;
  if (kind[i] || !lk[i][0]) return 0;
  while (n < LL && lk[i][n]) n++;
  if (lk[i][0] != '/') return 0;
  for (int p = 0; p + 11 <= n; p++) if (!memcmp (lk[i] + p, ".#prelink#.", 11)) { cut = p; break; }
  if (cut < 0) for (int p = 0; p + 9 <= n; p++) if (!memcmp (lk[i] + p, "(deleted)", 9)) return 0;
  if (cut >= 0) n = cut;
  for (int k = 0; k < n; k++) out[k] = lk[i][k];
  out[n] = 0;
  if (conf->system.exeprefix)
    for (int q = 0; q < 2 && prefix[q]; q++) {
      const char *s = prefix[q]; _Bool acc = 1, m = 1;
      if (*s == '!') { acc = 0; s++; }
      for (int k = 0; m && k < 4 && s[k]; k++) if (out[k] != s[k]) m = 0;
      if (m) return acc;
    }
  return 1;
}
static void cb (gpointer key, gpointer value, gpointer data)
{
  char want[LL + 1]; char *got = value;
  int i = pos - 1;
  _Bool w = wanted (i, want);
  VP_ASSERT (w, "only wanted running programs are observed");
  VP_ASSERT (!w || !strcmp (got, want), "the observed path is the executable's, without prelink's suffix");
  int pid = 0;
  for (int k = 0; k < 4 && dn[i][k]; k++) pid = pid * 10 + dn[i][k] - '0';
  VP_ASSERT (GPOINTER_TO_INT (key) == pid, "the observed process id is the entry's");
  VP_ASSERT (data == (gpointer) &ngot, "user data is passed through");
  exp_[i]++; ngot++;
}
void vp_main (void)
{
  memset (conf, 0, sizeof (*conf));
  self = (int) vp_range (1, 9999);
  for (int i = 0; i < NE; i++) {
    for (int k = 0; k < 4; k++) dn[i][k] = (char) vp_u8 ();
    VP_ASSUME (dn[i][0]);
    kind[i] = (int) vp_range (0, 2);
#ifdef TEXT
    /* links built around the markers */
    { static const char *const piece[] = { "", ".#prelink#.", "(deleted)", " (deleted)", ".#prelink#", "(delete" };
      int n = 0; lk[i][n++] = '/'; lk[i][n++] = (char) vp_u8 ();
      VP_ASSUME (lk[i][1]);
      const char *q = piece[vp_range (0, 5)];
      for (int k = 0; k < 11; k++) if (q[k]) lk[i][n++] = q[k]; else break;
      q = piece[vp_range (0, 5)];
      for (int k = 0; k < 11; k++) if (q[k]) lk[i][n++] = q[k]; else break;
      lk[i][n++] = (char) vp_u8 ();
      lk[i][n] = 0; }
#else
    for (int k = 0; k < LL; k++) lk[i][k] = i ? (k < 3 ? (char) vp_u8 () : 0) : (char) vp_u8 ();
#endif
  }
  for (int q = 0; q < 2; q++) { for (int k = 0; k < 3; k++) pre[q][k] = (char) vp_u8 (); VP_ASSUME (pre[q][0]); }
  int np = (int) vp_range (0, 2);
  for (int q = 0; q < 2; q++) if (q < np) prefix[q] = pre[q];
  conf->system.exeprefix = vp_bool () ? prefix : NULL;

  proc_foreach ((GHFunc) cb, &ngot);

  for (int i = 0; i < NE; i++) {
    char tmp[LL + 1];
    VP_ASSERT (exp_[i] == wanted (i, tmp), "every wanted running program is observed exactly once");
  }
  VP_ASSERT (opened == 1 && closed == 1, "/proc is closed");
  VP_REACH ("end"); if (ngot == NE) VP_REACH ("all observed"); if (!ngot) VP_REACH ("none observed");
}
