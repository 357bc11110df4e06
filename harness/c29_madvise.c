/* C29: giving pages back: K requests in any order over any kernel. */
#include "vph.h"
#include "madvise_utils.h"
#ifndef K
# define K 3
#endif
static _Bool has_free, nomem; static char *probe; static int mapped, unmapped, calls, probing = -1; static void *a; static size_t n; static int want_adv, given; static char page[4096];
void *vp_mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  VP_ASSERT (addr == NULL && (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && fd == -1, "the probe uses memory of its own");
  VP_ASSERT (len >= 1 && len <= 4096, "one page is probed");
  VP_ASSERT (mapped == 0, "the kernel is probed once");
  mapped++;
  if (nomem) { errno = ENOMEM; return MAP_FAILED; }
  return probe = page;
}
int vp_munmap (void *addr, size_t len) { VP_ASSERT (addr == probe && probe, "only the probed page is unmapped"); probe = NULL; unmapped++; return 0; }
int vp_madvise (void *addr, size_t len, int advice)
{
  if (advice == MADV_FREE && !has_free) { errno = EINVAL; return -1; }
  if (addr == probe && probe) { VP_ASSERT (len <= 4096 && advice == MADV_FREE, "the probe touches its own page only"); return 0; }
  VP_ASSERT (addr == a && len == n, "exactly the given range is evacuated");
  VP_ASSERT (advice == want_adv, "lazily if wanted and possible, at once otherwise");
  calls++;
  if (given < 0) errno = EINVAL;
  return given;
}
static int ffd; static off_t foff, flen;
int vp_posix_fadvise (int fd, off_t offset, off_t len, int advice)
{
  VP_ASSERT (fd == ffd && offset == foff && len == flen && advice == POSIX_FADV_DONTNEED, "exactly the given range of the file is evacuated");
  calls++;
  return given;
}
void vp_main (void)
{
  int asked = 0;
  has_free = vp_bool (); nomem = vp_bool ();
  for (int k = 0; k < K; k++) {
    int what = vp_range (0, 2), lazy = vp_int ();
    calls = 0; given = vp_bool () ? 0 : -1;
    if (what == 0) { asked = 1; VP_ASSERT (!!preload_check_madv_free_support () == (has_free && !nomem), "support is what the kernel supports"); }
    else if (what == 1) {
      a = (void *) (uintptr_t) (4096 * vp_range (1, 1 << 30)); n = vp_i64 ();
      want_adv = lazy && has_free && !nomem ? MADV_FREE : MADV_DONTNEED;
      VP_ASSERT (preload_evacuate_pages (a, n, lazy) == given && calls == 1, "the kernel's answer is passed on");
    } else {
      ffd = vp_int (); foff = vp_i64 (); flen = vp_i64 (); given = vp_range (0, 40);
      VP_ASSERT (preload_evacuate_file_pages (ffd, foff, flen) == given && calls == 1, "the kernel's answer is passed on");
    }
    VP_ASSERT (probe == NULL, "the probed page is given back");
  }
  (void) asked;
  VP_REACH ("end");
}
