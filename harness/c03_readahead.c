/* C03/C04/C05: preload_readahead() - what is asked of the kernel for a list
 * of selected maps.  Every system call is a stand-in with symbolic results.
 *  MODE 1 COVER  any ranges over two files: the union of what is requested is
 *                the union of what was selected, for every sort strategy
 *  MODE 2 ORDER  distinct files: the order of the requests per strategy
 *  MODE 3 PAR    readahead in child processes: followed child, fork/wait faults
 *  MODE 4 FAULT  failures of open/readahead/mmap/madvise: descriptors, mappings
 */
#include "vph.h"
#ifndef NF
# define NF 3
#endif
#define MAXR (2 * NF + 2)

static const char *const names[4] = { "/a", "/b", "/c", "/d" };
/* open descriptors: fd 10+i; each open() gets a new one */
#define NFD (3 * NF + 2)
static int nfd, fdname[NFD], fdstate[NFD];          /* 0 unused, 1 open, 2 closed */
static struct { int name; int64_t off, len; } req[MAXR];
static int nreq, faults; static _Bool tried[4];
static int64_t m_len, m_off; static int m_live, m_adv; static char mapped[16];
static int ino[4], fib[4], fibfail[4];
static size_t blk;
static int forks, follow = -1, inchild, live, maxlive, waits, waitfail;
static int nseq; static struct { int name; int64_t off, len; } seq[MAXR];

static int name_of (const char *p)
{ for (int i = 0; i < 4; i++) if (!strcmp (p, names[i])) return i; VP_ASSERT (0, "only the paths of selected maps are opened"); return 0; }
static _Bool coin (void) {
#if MODE == 4
  return vp_bool ();
#else
  return 0;
#endif
}
int vp_open (const char *p, int flags, ...)
{
  int n = name_of (p);
  VP_ASSERT ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "prefetching opens files for reading only");
  tried[n] = 1;
  if (coin ()) { errno = vp_bool () ? EACCES : ENOENT; faults++; return -1; }
  VP_BOUND (nfd < NFD, "opens"); VP_ASSUME (nfd < NFD);
  fdname[nfd] = n; fdstate[nfd] = 1;
  return 10 + nfd++;
}
int vp_close (int fd)
{
  VP_ASSERT (fd >= 10 && fd < 10 + nfd && fdstate[fd - 10] == 1, "only an open descriptor is closed, once");
  fdstate[fd - 10] = 2;
  return 0;
}
int vp_fstat (int fd, struct stat *st)
{
  VP_ASSERT (fd >= 10 && fd < 10 + nfd && fdstate[fd - 10] == 1, "fstat of an open descriptor");
  if (coin ()) { errno = EIO; return -1; }
  memset (st, 0, sizeof *st);
  st->st_blksize = blk; st->st_ino = ino[fdname[fd - 10]];
  return 0;
}
int vp_ioctl (int fd, unsigned long rq, ...)
{
  va_list ap; va_start (ap, rq); int *b = va_arg (ap, int *); va_end (ap);
  VP_ASSERT (fd >= 10 && fd < 10 + nfd && fdstate[fd - 10] == 1, "ioctl on an open descriptor");
  if (fibfail[fdname[fd - 10]]) { errno = EPERM; return -1; }
  *b = fib[fdname[fd - 10]];
  return 0;
}
ssize_t vp_readahead (int fd, off_t off, size_t len)
{
  VP_ASSERT (fd >= 10 && fd < 10 + nfd && fdstate[fd - 10] == 1, "readahead on an open descriptor");
  VP_ASSERT (nreq < MAXR, "no more requests than selected maps");
  if (nreq < MAXR) { req[nreq].name = fdname[fd - 10]; req[nreq].off = off; req[nreq].len = (int64_t) len; nreq++; }
  if (coin ()) {
    int k = (int) vp_range (0, 4);
    errno = k == 0 ? EINVAL : k == 1 ? ENOSYS : k == 2 ? EOPNOTSUPP : k == 3 ? EIO : EBADF;
    faults++;
    return -1;
  }
  return 0;
}
void *vp_mmap (void *a, size_t len, int prot, int flags, int fd, off_t off)
{
  VP_ASSERT (nreq > 0 && fd >= 10 && fd < 10 + nfd && fdstate[fd - 10] == 1, "mmap of an open descriptor");
  VP_ASSERT (a == NULL && !(flags & MAP_FIXED) && !(prot & PROT_WRITE), "the fallback mapping is private, read-only, anywhere");
  VP_ASSERT ((off & 4095) == 0 && off >= 0, "the fallback mapping starts on a page boundary");
  VP_ASSERT (off <= req[nreq - 1].off && off + (int64_t) len >= req[nreq - 1].off + req[nreq - 1].len, "the fallback mapping covers the requested range");
  VP_ASSERT (req[nreq - 1].off - off < 4096 && off + (int64_t) len - (req[nreq - 1].off + req[nreq - 1].len) < 4096, "the fallback mapping exceeds the range by less than a page");
  VP_ASSERT (!m_live, "one fallback mapping at a time");
  if (coin ()) { errno = ENODEV; return MAP_FAILED; }
  m_live = 1; m_off = off; m_len = (int64_t) len; m_adv = 0;
  return mapped;
}
int vp_munmap (void *a, size_t len)
{
  VP_ASSERT (m_live && a == mapped && (int64_t) len == m_len, "the fallback mapping is unmapped whole");
  VP_ASSERT (m_adv, "the fallback advises the kernel");
  m_live = 0;
  return 0;
}
int vp_madvise (void *a, size_t len, int advice)
{
  VP_ASSERT (m_live && a == mapped && (int64_t) len >= m_len - 4095 && (int64_t) len <= m_len && advice == MADV_WILLNEED, "the fallback asks for the mapped range");
  m_adv = 1;
  return coin () ? -1 : 0;
}
int vp_posix_fadvise (int fd, off_t off, off_t len, int advice) { return 0; }
static void end_checks (void)
{
  for (int i = 0; i < NFD; i++) if (i < nfd) VP_ASSERT (fdstate[i] == 2, "every opened descriptor is closed");
  VP_ASSERT (!m_live, "no mapping is left");
}
pid_t vp_fork (void)
{
  VP_ASSERT (!inchild, "a child process does not fork");
  if (vp_bool ()) { errno = EAGAIN; faults++; forks++; return -1; }
  VP_ASSERT (live < conf->system.maxprocs, "no more child processes than the configured maximum");
  if (forks == follow) { inchild = 1; nreq = 0; return 0; }
  forks++; live++;
  return 100 + forks;
}
pid_t vp_wait (int *st)
{
  VP_ASSERT (!inchild, "a child process does not wait for its siblings");
  VP_ASSERT (live > 0, "wait() is called only while there are children");
  if (waitfail < 2 && vp_bool ()) { waitfail++; errno = EINTR; return -1; }
  live--;
  if (st) *st = vp_bool () ? 256 : 0;
  return 100;
}
pid_t vp_waitpid (pid_t p, int *st, int o) { return vp_wait (st); }
void vp_exit (int code)
{
  VP_ASSERT (inchild, "only child processes exit while prefetching");
  end_checks ();
  VP_ASSERT (nreq == 1, "a child issues one request");
  VP_ASSERT (follow < nseq && req[0].name == seq[follow].name && req[0].off == seq[follow].off && req[0].len == seq[follow].len, "the child's request is the one the sequential run issues");
#if MODE == 3
  VP_REACH ("child done");
#endif
  VP_DONE ();
  for (;;);
}

void vp_main (void)
{
  preload_map_t *F[NF], *A[NF]; int nm[NF]; _Bool useddef = 0;
  int64_t off[NF], len[NF];
  memset (conf, 0, sizeof (*conf));
  vp_state_init ();
  conf->system.sortstrategy = STRAT;
  conf->system.maxprocs = 0;
  blk = 4096;
  for (int i = 0; i < 4; i++) { ino[i] = (int) vp_range (1, 7); fib[i] = (int) vp_range (0, 7); fibfail[i] = vp_bool (); }
  for (int i = 0; i < NF; i++) {
#if MODE == 2
    nm[i] = i; off[i] = 4096 * vp_range (0, 3); len[i] = 4096;
#else
    nm[i] = (int) vp_range (0, 1); off[i] = vp_range (0, OFFMAX); len[i] = vp_range (0, OFFMAX);
#endif
    for (int j = 0; j < i; j++) VP_ASSUME (nm[i] != nm[j] || off[i] != off[j] || len[i] != len[j]);
    F[i] = preload_map_new (names[nm[i]], off[i], len[i]);
    preload_map_ref (F[i]);
#if MODE == 2
    F[i]->block = vp_bool () ? -1 : (int) vp_range (0, 7);
#else
    F[i]->block = (int) vp_range (-1, 3);
#endif
    A[i] = F[i];
  }
#if MODE == 3
  preload_readahead (A, NF);
  nseq = nreq; VP_ASSUME (nfd <= NFD);
  for (int i = 0; i < MAXR; i++) if (i < nseq) { seq[i].name = req[i].name; seq[i].off = req[i].off; seq[i].len = req[i].len; }
  conf->system.maxprocs = (int) vp_range (1, 3);
  follow = (int) vp_range (-1, NF);
  preload_readahead (A, NF);
  VP_ASSERT (live == 0, "every child is reaped before the call returns");
  VP_ASSERT (forks == nseq, "one child per request, and none is skipped after a failed fork");
  VP_REACH ("parent done"); end_checks ();
  if (faults) VP_REACH ("parent done after a failed fork");
  return;
#endif
  _Bool needfib[NF];
  for (int i = 0; i < NF; i++) needfib[i] = F[i]->block == -1;
  int r = preload_readahead (A, NF);
  end_checks ();
  VP_ASSERT (r <= NF && r >= (NF > 0), "the reported number of requests is between 1 and the number of maps");
#if MODE == 1
  VP_ASSERT (r == nreq, "the returned count is the number of requests issued");
  /* pick any byte of any file */
  int pn = (int) vp_range (0, 1); int64_t x = vp_range (0, 2 * (int64_t) OFFMAX + 4096);
  _Bool sel = 0, rq = 0;
  for (int i = 0; i < NF; i++) if (nm[i] == pn && x >= off[i] && x < off[i] + len[i]) sel = 1;
  for (int i = 0; i < MAXR; i++) if (i < nreq && req[i].name == pn && x >= req[i].off && x < req[i].off + req[i].len) rq = 1;
  VP_ASSERT (!sel || rq, "every byte of a selected map is requested");
  VP_ASSERT (!rq || sel, "no byte outside the selected maps is requested");
  if (nreq == 1) VP_REACH ("all merged");
  if (nreq == NF) VP_REACH ("none merged");
#endif
#if MODE == 2
  VP_ASSERT (nreq == NF, "distinct files are requested separately");
  int strat = STRAT;
  for (int i = 0; i < NF; i++) {
    VP_ASSERT (req[i].off == off[req[i].name] && req[i].len == 4096, "each request is one map");
    for (int j = 0; j < i; j++) VP_ASSERT (req[i].name != req[j].name, "each map is requested once");
  }
  for (int i = 0; i + 1 < NF; i++) {
    int a = req[i].name, b = req[i + 1].name;
    if (strat == SORT_NONE) VP_ASSERT (a == i, "no sorting: the order of need is kept");
    else if (strat == SORT_PATH) VP_ASSERT (a < b, "sorted by path");
    else if (strat == SORT_INODE || strat == SORT_BLOCK) {
      int ka = !needfib[a] ? F[a]->block : strat == SORT_BLOCK && !fibfail[a] && fib[a] ? fib[a] : ino[a];
      int kb = !needfib[b] ? F[b]->block : strat == SORT_BLOCK && !fibfail[b] && fib[b] ? fib[b] : ino[b];
      if (strat == SORT_INODE) VP_ASSERT (ka <= kb, "sorted by inode");
      else VP_ASSERT (ka <= kb, "sorted by disk block, by inode where the block is unknown");
    }
  }
#endif
#if MODE == 4
  VP_REACH ("done"); if (faults >= 2) VP_REACH ("done after two faults");
  for (int i = 0; i < NF; i++) VP_ASSERT (tried[nm[i]], "a failure on one file does not keep the others from being prefetched");
#endif
#if MODE != 3
  VP_REACH ("end");
#endif
}
