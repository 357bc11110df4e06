/* C11: identity of maps: a table lookup finds a map exactly by path and range. */
#include "vph.h"
#ifndef L
# define L 2
#endif
#define NM 2
void vp_main (void)
{
  static char p[NM][L + 1]; size_t off[NM], len[NM]; preload_map_t *m[NM], key; _Bool same;
  vp_state_init ();
  state->time = vp_range (0, 1 << 30);
  for (int i = 0; i < NM; i++) {
    for (int k = 0; k < L; k++) p[i][k] = vp_u8 ();
    off[i] = vp_i64 (); len[i] = vp_i64 ();
    m[i] = preload_map_new (p[i], off[i], len[i]);
    VP_ASSERT (m[i]->path != p[i] && !strcmp (m[i]->path, p[i]) && m[i]->offset == off[i] && m[i]->length == len[i], "a map keeps its path and range");
    VP_ASSERT (m[i]->refcount == 0 && m[i]->update_time == state->time && preload_map_get_size (m[i]) == len[i], "a new map is unused and as large as its range");
  }
  key.path = p[1]; key.offset = off[1]; key.length = len[1];
  for (int i = 0; i < NM; i++) for (int j = i; j < NM; j++) {
    same = !strcmp (p[i], p[j]) && off[i] == off[j] && len[i] == len[j];
    VP_ASSERT (!!preload_map_equal (m[i], m[j]) == same, "maps are equal exactly if path and range are");
    VP_ASSERT (!same || preload_map_hash (m[i]) == preload_map_hash (m[j]), "equal maps have equal hashes");
  }
  VP_ASSERT (preload_map_equal (&key, m[1]) && preload_map_hash (&key) == preload_map_hash (m[1]), "the key made from a mapping line finds the map");
  VP_ASSERT (!preload_map_equal (m[0], NULL) && !preload_map_equal (NULL, m[0]), "nothing is no map");
  preload_map_ref (m[0]);
  { gpointer got = NULL; _Bool hit = g_hash_table_lookup_extended (state->maps, &key, &got, NULL);
    same = !strcmp (p[0], p[1]) && off[0] == off[1] && len[0] == len[1];
    VP_ASSERT (hit == same && (!hit || got == m[0]), "the table finds a map by path and range"); }
  preload_map_unref (m[0]); preload_map_free (m[1]);
  VP_ASSERT (g_hash_table_size (state->maps) == 0 && vp_critical == 0, "no map is left");
  VP_REACH ("end");
}
