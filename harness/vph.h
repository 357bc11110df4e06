/* vph.h - included by every harness: system and GLib headers, the vp
 * interface and /repo's own headers. */
#ifndef VPH_H
#define VPH_H
#define VP_NO_REDIRECT
#include "redirect.h"
#include "vp.h"
#include "common.h"
#include "log.h"
#include "conf.h"
#include "state.h"
#include "state_io.h"
#include "proc.h"
#include "map.h"
#include "exe.h"
#include "markov.h"
#include "vomm.h"
#include "prophet.h"
#include "readahead.h"
#include "spy.h"
#include "model_utils.h"
#include "power.h"
#include "time_utils.h"
#include "madvise_utils.h"
#include "cmdline.h"
#include "context.h"
#include "preload.h"

void vp_fatal (void);
GError *vp_error_new (GQuark dom, int code);
int vp_tok_int (_Bool neg, uint64_t mag);
int vp_tok_dbl (double d);
void vp_put_tok (char *b, size_t n, size_t *o, int t);
extern int vp_critical;
/* text written by the harness: numbers become tokens under CBMC, digits natively */
static inline void vp_text_s (char *b, size_t n, size_t *o, const char *s) { for (size_t i = 0; s[i]; i++) { if (*o + 1 < n) b[*o] = s[i]; (*o)++; } b[*o < n ? *o : n - 1] = 0; }
static inline void vp_text_hex (char *b, size_t n, size_t *o, uint64_t v)
{
#ifdef VP_CBMC
  vp_put_tok (b, n, o, vp_tok_int (0, v));
#else
  *o += snprintf (b + *o, n - *o, "%llx", (unsigned long long) v);
#endif
  b[*o < n ? *o : n - 1] = 0;
}
static inline void vp_text_dec (char *b, size_t n, size_t *o, int64_t v)
{
#ifdef VP_CBMC
  vp_put_tok (b, n, o, vp_tok_int (v < 0, v < 0 ? 0UL - (uint64_t) v : (uint64_t) v));
#else
  *o += snprintf (b + *o, n - *o, "%lld", (long long) v);
#endif
  b[*o < n ? *o : n - 1] = 0;
}

/* an empty model, as preload_state_load leaves it before reading a file */
static inline void vp_state_init (void)
{
  memset (state, 0, sizeof (*state));
  state->exes = g_hash_table_new_full (g_str_hash, g_str_equal, NULL, (GDestroyNotify) preload_exe_free);
  state->bad_exes = g_hash_table_new_full (g_str_hash, g_str_equal, g_free, NULL);
  state->maps = g_hash_table_new ((GHashFunc) preload_map_hash, (GEqualFunc) preload_map_equal);
  state->maps_arr = g_ptr_array_new ();
}
#endif
