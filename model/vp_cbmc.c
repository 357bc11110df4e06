/* vp_cbmc.c - the environment of the encoding: draws, GLib containers, text
 * formatting, sorting, libm contracts.  Only compiled in VP_CBMC mode; the
 * native replay uses the real GLib, libc and libm in place of this file.
 * See DESIGN.md, "Trusted models". */
#define VP_NO_REDIRECT
#include "redirect.h"
#include "vp.h"

long long nondet_longlong (void);
int nondet_int (void);
unsigned nondet_uint (void);
unsigned char nondet_uchar (void);
_Bool nondet_bool (void);
double nondet_double (void);

int64_t vp_i64 (void) { long long v = nondet_longlong (); __CPROVER_input ("vp", v); return v; }
int vp_int (void) { int v = nondet_int (); __CPROVER_input ("vp", v); return v; }
unsigned vp_uint (void) { unsigned v = nondet_uint (); __CPROVER_input ("vp", v); return v; }
uint8_t vp_u8 (void) { unsigned char v = nondet_uchar (); __CPROVER_input ("vp", v); return v; }
_Bool vp_bool (void) { unsigned char v = nondet_uchar (); __CPROVER_assume (v <= 1); __CPROVER_input ("vp", v); return v != 0; }
double vp_dbl (void) { double v = nondet_double (); __CPROVER_input ("vp", v); return v; }
int64_t vp_range (int64_t lo, int64_t hi)
{ long long v = nondet_longlong (); __CPROVER_assume (v >= lo && v <= hi); __CPROVER_input ("vp", v); return v; }

int vp_pick (int n)
{
  long long v = nondet_longlong (); __CPROVER_assume (v >= 0 && v < n); __CPROVER_input ("vp", v);
  for (int i = 0; i < 7; i++) { if (i + 1 >= n) return i; if (v == i) return i; }
  return 7;
}

/* ---------------------------------------------------------------- memory */
/* free: as CBMC's, without branching (the freed object that is watched for
 * later use is chosen by an expression) */
extern const void *__CPROVER_deallocated;
#ifdef VP_NO_UAF
void free (void *p)
{
  if (!p) return;
  __CPROVER_assert (__CPROVER_DYNAMIC_OBJECT (p) && __CPROVER_POINTER_OFFSET (p) == 0, "free of an allocated block");
}
#else
void free (void *p)
{
  if (!p) return;
  __CPROVER_assert (__CPROVER_DYNAMIC_OBJECT (p) && __CPROVER_POINTER_OFFSET (p) == 0, "free of an allocated block");
  __CPROVER_assert (p != __CPROVER_deallocated, "block is not freed twice");
  __CPROVER_deallocated = nondet_bool () ? p : __CPROVER_deallocated;
}
#endif
/* allocation never fails: GLib aborts the program when it does */
gpointer g_malloc (gsize n)  { return n ? malloc (n) : NULL; }
gpointer g_malloc0 (gsize n) { return n ? __CPROVER_allocate (n, 1) : NULL; }
gpointer g_malloc_n (gsize n, gsize s) { return n * s ? malloc (n * s) : NULL; }
gpointer g_malloc0_n (gsize n, gsize s) { return n * s ? __CPROVER_allocate (n * s, 1) : NULL; }
gpointer g_try_malloc (gsize n) { return n ? malloc (n) : NULL; }
gpointer g_try_malloc0 (gsize n) { return n ? __CPROVER_allocate (n, 1) : NULL; }
void (g_free) (gpointer p) { free (p); }
void (g_free_sized) (gpointer p, size_t n) { free (p); }
void g_slice_free1 (gsize n, gpointer p) { free (p); }
gpointer g_slice_alloc (gsize n) { return malloc (n); }
gpointer g_slice_alloc0 (gsize n) { return __CPROVER_allocate (n, 1); }
void (g_clear_pointer) (gpointer *pp, GDestroyNotify d) { gpointer p = *pp; *pp = NULL; if (p) d (p); }

/* --------------------------------------------------------------- strings */
#ifndef VP_STRCAP
# define VP_STRCAP 0            /* 0: exact allocation */
#endif
static inline size_t vp_len (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strlen (const char *s) { return vp_len (s); }
size_t strnlen (const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp (const char *a, const char *b)
{
  for (size_t i = 0;; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp (const char *a, const char *b, size_t n)
{
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
char *strstr (const char *h, const char *n)
{
  for (size_t i = 0;; i++) {
    size_t j = 0;
    while (n[j] && h[i + j] == n[j]) j++;
    if (!n[j]) return (char *) h + i;
    if (!h[i]) return NULL;
  }
}
size_t strcspn (const char *s, const char *r)
{
  size_t i;
  for (i = 0; s[i]; i++) for (size_t k = 0; r[k]; k++) if (s[i] == r[k]) return i;
  return i;
}
char *strchr (const char *s, int c)
{ for (size_t i = 0;; i++) { if (s[i] == (char) c) return (char *) s + i; if (!s[i]) return NULL; } }
char *strrchr (const char *s, int c)
{ char *r = NULL; for (size_t i = 0;; i++) { if (s[i] == (char) c) r = (char *) s + i; if (!s[i]) return r; } }
char *strcpy (char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy (char *d, const char *s, size_t n)
{ size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat (char *d, const char *s) { strcpy (d + vp_len (d), s); return d; }
char *stpcpy (char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
gchar *(g_stpcpy) (gchar *d, const char *s) { return stpcpy (d, s); }
gsize (g_strlcpy) (gchar *d, const gchar *s, gsize n)
{ gsize i = 0; if (n) { for (; i + 1 < n && s[i]; i++) d[i] = s[i]; d[i] = 0; } return vp_len (s); }

gchar *(g_strdup) (const gchar *s)
{
  if (!s) return NULL;
  size_t n = vp_len (s);
  char *r = malloc (VP_STRCAP ? VP_STRCAP : n + 1);
  if (VP_STRCAP) {
    /* constant size, constant last byte: keeps later scans of r bounded */
    VP_BOUND (n + 1 <= VP_STRCAP, "string longer than VP_STRCAP"); __CPROVER_assume (n + 1 <= VP_STRCAP);
    for (size_t i = 0; i + 1 < VP_STRCAP; i++) r[i] = i < n ? s[i] : 0;
    r[VP_STRCAP - 1] = 0;
  } else
    for (size_t i = 0; i <= n; i++) r[i] = s[i];
  return r;
}
char *strdup (const char *s) { return g_strdup (s); }
gchar *(g_strndup) (const gchar *s, gsize n)
{
  if (!s) return NULL;
  char *r = __CPROVER_allocate (n + 1, 1);
  for (size_t i = 0; i < n && s[i]; i++) r[i] = s[i];
  return r;
}
gpointer (g_memdup2) (gconstpointer p, gsize n) { if (!p || !n) return NULL; char *r = malloc (n); memcpy (r, p, n); return r; }
gchar *g_strconcat (const gchar *s1, ...)
{
  va_list ap; size_t n = 0; const char *s;
  if (!s1) return NULL;
  n = vp_len (s1);
  va_start (ap, s1); while ((s = va_arg (ap, const char *))) n += vp_len (s); va_end (ap);
  char *r = malloc (n + 1), *p = stpcpy (r, s1);
  va_start (ap, s1); while ((s = va_arg (ap, const char *))) p = stpcpy (p, s); va_end (ap);
  return r;
}
int g_strcmp0 (const char *a, const char *b) { if (!a) return -(a != b); if (!b) return a != b; return strcmp (a, b); }
gboolean (g_str_has_prefix) (const gchar *s, const gchar *p) { return strncmp (s, p, vp_len (p)) == 0; }
gboolean (g_str_has_suffix) (const gchar *s, const gchar *p)
{ size_t a = vp_len (s), b = vp_len (p); return a >= b && strcmp (s + a - b, p) == 0; }
gchar *g_strstr_len (const gchar *h, gssize n, const gchar *needle)
{
  if (n < 0) return strstr (h, needle);
  size_t k = vp_len (needle);
  for (size_t i = 0; i + k <= (size_t) n && h[i]; i++) if (!strncmp (h + i, needle, k)) return (char *) h + i;
  return NULL;
}
gchar *g_strrstr (const gchar *h, const gchar *n)
{ char *r = NULL, *p; while ((p = strstr (h, n))) { r = p; h = p + 1; if (!*p) break; } return r; }
int vp_isspace (int c) { return c == ' ' || (c >= 9 && c <= 13); }
gchar *g_strchug (gchar *s)
{ size_t i = 0, j = 0; while (vp_isspace (s[i])) i++; if (i) { while ((s[j++] = s[i++])); } return s; }
gchar *g_strchomp (gchar *s)
{ size_t n = vp_len (s); while (n && vp_isspace (s[n - 1])) s[--n] = 0; return s; }
gboolean (g_str_equal) (gconstpointer a, gconstpointer b) { return strcmp (a, b) == 0; }
guint g_str_hash (gconstpointer v) { guint h = 5381; for (const signed char *p = v; *p; p++) h = h * 33 + *p; return h; }
gboolean g_direct_equal (gconstpointer a, gconstpointer b) { return a == b; }
guint g_direct_hash (gconstpointer v) { return (guint)(gsize) v; }
gboolean g_int64_equal (gconstpointer a, gconstpointer b) { return *(const gint64 *) a == *(const gint64 *) b; }
guint g_int64_hash (gconstpointer v) { return (guint) *(const gint64 *) v; }
gboolean g_int_equal (gconstpointer a, gconstpointer b) { return *(const gint *) a == *(const gint *) b; }
guint g_int_hash (gconstpointer v) { return (guint) *(const gint *) v; }
void g_strfreev (gchar **v) { if (v) { for (size_t i = 0; v[i]; i++) free (v[i]); free (v); } }
guint g_strv_length (gchar **v) { guint n = 0; while (v[n]) n++; return n; }
gchar **g_strdupv (gchar **v)
{ if (!v) return NULL; guint n = g_strv_length (v); gchar **r = malloc ((n + 1) * sizeof (gchar *));
  for (guint i = 0; i < n; i++) r[i] = g_strdup (v[i]); r[n] = NULL; return r; }
char *strerror (int e) { return (char *) "error"; }
const gchar *g_strerror (gint e) { return "error"; }
int vp_isdigit (int c) { return c >= '0' && c <= '9'; }
int vp_isxdigit (int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int vp_isalpha (int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int vp_isalnum (int c) { return vp_isdigit (c) || vp_isalpha (c); }

/* ------------------------------------- calls through function pointers
 * GLib passes more arguments than some callbacks take (a C idiom the ABI
 * allows).  vp_disp is generated by check.py from the symbol tables: a direct
 * call, with the declared number of arguments, of every function of /repo
 * whose address is taken. */
_Bool vp_disp (void *f, int n, void *a, void *b, void *c, long *ret);
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
static void vp_call2 (GFunc f, gpointer a, gpointer b)
{ long r; if (!vp_disp ((void *) f, 2, a, b, NULL, &r)) ((void (*) (void *, void *)) f) (a, b); }
static void vp_call3 (GHFunc f, gpointer a, gpointer b, gpointer c)
{ long r; if (!vp_disp ((void *) f, 3, a, b, c, &r)) ((void (*) (void *, void *, void *)) f) (a, b, c); }
static gboolean vp_callb3 (GHRFunc f, gpointer a, gpointer b, gpointer c)
{ long r; if (vp_disp ((void *) f, 3, a, b, c, &r)) return (gboolean) r; return ((gboolean (*) (void *, void *, void *)) f) (a, b, c); }
static void vp_destroy (GDestroyNotify d, gpointer p)
{
  long r;
  if (d == (GDestroyNotify) g_free) free (p);
  else if (!vp_disp ((void *) d, 1, p, NULL, NULL, &r)) ((void (*) (void *)) d) (p);
}
static int vp_calli (void *f, int n, const void *a, const void *b)
{
  long r;
  if (vp_disp (f, n, (void *) a, (void *) b, NULL, &r)) return (int) r;
  return n == 1 ? ((int (*) (void *)) f) ((void *) a) : ((int (*) (void *, void *)) f) ((void *) a, (void *) b);
}

#pragma CPROVER check pop
/* ------------------------------------------------------------ GHashTable */
#ifndef VP_HTCAP
# define VP_HTCAP 6
#endif
struct _GHashTable { GHashFunc hf; GEqualFunc ef; GDestroyNotify kd, vd; guint n; gint ref; gpointer k[VP_HTCAP]; gpointer v[VP_HTCAP]; };
GHashTable *g_hash_table_new_full (GHashFunc hf, GEqualFunc ef, GDestroyNotify kd, GDestroyNotify vd)
{
  GHashTable *h = malloc (sizeof (struct _GHashTable));
  h->hf = hf; h->ef = ef; h->kd = kd; h->vd = vd; h->n = 0; h->ref = 1;
  return h;
}
GHashTable *g_hash_table_new (GHashFunc hf, GEqualFunc ef) { return g_hash_table_new_full (hf, ef, NULL, NULL); }
static gboolean vp_keq (GHashTable *h, gconstpointer a, gconstpointer b)
{
  if (!h->ef || h->ef == g_direct_equal) return (gsize) a == (gsize) b;   /* integers: folds */
  if (h->ef == (GEqualFunc) (g_str_equal)) return strcmp (a, b) == 0;
  if (h->ef == g_int64_equal) return *(const gint64 *) a == *(const gint64 *) b;
  if (h->ef == g_int_equal) return *(const gint *) a == *(const gint *) b;
  return vp_calli ((void *) h->ef, 2, a, b);
}
static guint vp_find (GHashTable *h, gconstpointer key)
{
  guint i;
  for (i = 0; i < VP_HTCAP; i++) {
    if (i >= h->n) break;
    if (vp_keq (h, h->k[i], key)) return i;
  }
  return VP_HTCAP;
}
gpointer g_hash_table_lookup (GHashTable *h, gconstpointer key)
{
  for (guint i = 0; i < VP_HTCAP; i++) {
    if (i >= h->n) break;
    if (vp_keq (h, h->k[i], key)) return h->v[i];
  }
  return NULL;
}
gboolean g_hash_table_contains (GHashTable *h, gconstpointer key) { return vp_find (h, key) < VP_HTCAP; }
gboolean g_hash_table_lookup_extended (GHashTable *h, gconstpointer key, gpointer *ok, gpointer *ov)
{
  guint i = vp_find (h, key);
  if (i >= VP_HTCAP) return FALSE;
  if (ok) *ok = h->k[i];
  if (ov) *ov = h->v[i];
  return TRUE;
}
static gboolean vp_ht_put (GHashTable *h, gpointer key, gpointer value, gboolean newkey)
{
  for (guint i = 0; i < VP_HTCAP; i++) {
    if (i >= h->n) break;
    if (vp_keq (h, h->k[i], key)) {
      gpointer oldv = h->v[i], oldk = h->k[i];
      h->v[i] = value;
      if (newkey) { h->k[i] = key; if (h->kd && oldk != key) vp_destroy (h->kd, oldk); }
      else if (h->kd) vp_destroy (h->kd, key);
      if (h->vd) vp_destroy (h->vd, oldv);
      return FALSE;
    }
  }
  VP_BOUND (h->n < VP_HTCAP, "hash table entries <= VP_HTCAP");
  __CPROVER_assume (h->n < VP_HTCAP);
  h->k[h->n] = key; h->v[h->n] = value; h->n++;
  return TRUE;
}
gboolean g_hash_table_insert (GHashTable *h, gpointer key, gpointer value) { return vp_ht_put (h, key, value, FALSE); }
gboolean g_hash_table_replace (GHashTable *h, gpointer key, gpointer value) { return vp_ht_put (h, key, value, TRUE); }
gboolean g_hash_table_add (GHashTable *h, gpointer key) { return vp_ht_put (h, key, key, TRUE); }
static void vp_ht_del (GHashTable *h, guint i)
{
  for (guint j = 0; j + 1 < VP_HTCAP; j++) if (j >= i && j + 1 < h->n) { h->k[j] = h->k[j + 1]; h->v[j] = h->v[j + 1]; }
  h->n--;
}
static gboolean vp_ht_rm (GHashTable *h, gconstpointer key, gboolean notify)
{
  guint i = vp_find (h, key);
  if (i >= VP_HTCAP) return FALSE;
  gpointer k = h->k[i], v = h->v[i];
  vp_ht_del (h, i);
  if (notify) { if (h->kd) vp_destroy (h->kd, k); if (h->vd) vp_destroy (h->vd, v); }
  return TRUE;
}
gboolean g_hash_table_remove (GHashTable *h, gconstpointer key) { return vp_ht_rm (h, key, TRUE); }
gboolean g_hash_table_steal (GHashTable *h, gconstpointer key) { return vp_ht_rm (h, key, FALSE); }
gboolean g_hash_table_steal_extended (GHashTable *h, gconstpointer key, gpointer *sk, gpointer *sv)
{
  guint i = vp_find (h, key);
  if (i >= VP_HTCAP) { if (sk) *sk = NULL; if (sv) *sv = NULL; return FALSE; }
  if (sk) *sk = h->k[i]; if (sv) *sv = h->v[i];
  vp_ht_del (h, i);
  return TRUE;
}
guint g_hash_table_size (GHashTable *h) { return h->n; }
void g_hash_table_remove_all (GHashTable *h)
{
  guint n = h->n; h->n = 0;
  for (guint i = 0; i < VP_HTCAP; i++) {
    if (i >= n) break;
    if (h->kd) vp_destroy (h->kd, h->k[i]);
    if (h->vd) vp_destroy (h->vd, h->v[i]);
  }
}
void g_hash_table_steal_all (GHashTable *h) { h->n = 0; }
void g_hash_table_unref (GHashTable *h) { if (--h->ref == 0) { g_hash_table_remove_all (h); free (h); } }
GHashTable *g_hash_table_ref (GHashTable *h) { h->ref++; return h; }
void g_hash_table_destroy (GHashTable *h) { g_hash_table_remove_all (h); g_hash_table_unref (h); }
void g_hash_table_foreach (GHashTable *h, GHFunc f, gpointer d)
{
  for (guint i = 0; i < VP_HTCAP; i++) {
    if (i >= h->n) break;
    vp_call3 (f, h->k[i], h->v[i], d);
  }
}
guint g_hash_table_foreach_remove (GHashTable *h, GHRFunc f, gpointer d)
{
  guint i = 0, c = 0;
  for (guint s = 0; s < VP_HTCAP; s++) {
    if (i >= h->n) break;
    if (vp_callb3 (f, h->k[i], h->v[i], d)) {
      gpointer k = h->k[i], v = h->v[i];
      vp_ht_del (h, i); c++;
      if (h->kd) vp_destroy (h->kd, k);
      if (h->vd) vp_destroy (h->vd, v);
    } else i++;
  }
  return c;
}
guint g_hash_table_foreach_steal (GHashTable *h, GHRFunc f, gpointer d)
{
  guint i = 0, c = 0;
  for (guint s = 0; s < VP_HTCAP; s++) {
    if (i >= h->n) break;
    if (vp_callb3 (f, h->k[i], h->v[i], d)) { vp_ht_del (h, i); c++; } else i++;
  }
  return c;
}
gpointer g_hash_table_find (GHashTable *h, GHRFunc f, gpointer d)
{
  for (guint i = 0; i < VP_HTCAP; i++) {
    if (i >= h->n) break;
    if (vp_callb3 (f, h->k[i], h->v[i], d)) return h->v[i];
  }
  return NULL;
}
typedef struct { GHashTable *h; gpointer d2, d3; int pos; gboolean d5; gpointer d6; } RealIter;
void g_hash_table_iter_init (GHashTableIter *it, GHashTable *h) { RealIter *r = (RealIter *) it; r->h = h; r->pos = 0; }
gboolean g_hash_table_iter_next (GHashTableIter *it, gpointer *k, gpointer *v)
{
  RealIter *r = (RealIter *) it;
  if (r->pos >= (int) r->h->n || r->pos >= VP_HTCAP) return FALSE;
  if (k) *k = r->h->k[r->pos];
  if (v) *v = r->h->v[r->pos];
  r->pos++;
  return TRUE;
}
static void vp_iter_rm (GHashTableIter *it, gboolean notify)
{
  RealIter *r = (RealIter *) it; GHashTable *h = r->h;
  r->pos--;
  gpointer k = h->k[r->pos], v = h->v[r->pos];
  vp_ht_del (h, r->pos);
  if (notify) { if (h->kd) vp_destroy (h->kd, k); if (h->vd) vp_destroy (h->vd, v); }
}
void g_hash_table_iter_remove (GHashTableIter *it) { vp_iter_rm (it, TRUE); }
void g_hash_table_iter_steal (GHashTableIter *it) { vp_iter_rm (it, FALSE); }
GHashTable *g_hash_table_iter_get_hash_table (GHashTableIter *it) { return ((RealIter *) it)->h; }
GList *g_hash_table_get_values (GHashTable *h)
{ GList *l = NULL; for (guint i = 0; i < VP_HTCAP; i++) { if (i >= h->n) break; l = g_list_prepend (l, h->v[i]); } return l; }
GList *g_hash_table_get_keys (GHashTable *h)
{ GList *l = NULL; for (guint i = 0; i < VP_HTCAP; i++) { if (i >= h->n) break; l = g_list_prepend (l, h->k[i]); } return l; }

/* ------------------------------------------------------------- GPtrArray */
#ifndef VP_PACAP
# define VP_PACAP 6
#endif
typedef struct { gpointer *pdata; guint len; GDestroyNotify fd; gint ref; } PA;
GPtrArray *g_ptr_array_new (void)
{
  PA *a = malloc (sizeof (PA));
  a->pdata = malloc (VP_PACAP * sizeof (gpointer)); a->len = 0; a->fd = NULL; a->ref = 1;
  return (GPtrArray *) a;
}
GPtrArray *g_ptr_array_sized_new (guint n) { return g_ptr_array_new (); }
GPtrArray *g_ptr_array_new_with_free_func (GDestroyNotify f) { GPtrArray *a = g_ptr_array_new (); ((PA *) a)->fd = f; return a; }
void g_ptr_array_set_free_func (GPtrArray *a, GDestroyNotify f) { ((PA *) a)->fd = f; }
void g_ptr_array_add (GPtrArray *ga, gpointer p)
{
  PA *a = (PA *) ga;
  VP_BOUND (a->len < VP_PACAP, "pointer array entries <= VP_PACAP");
  __CPROVER_assume (a->len < VP_PACAP);
  a->pdata[a->len] = p; a->len++;
}
gpointer g_ptr_array_steal_index (GPtrArray *ga, guint i)
{
  PA *a = (PA *) ga; gpointer p = a->pdata[i];
  for (guint j = 0; j + 1 < VP_PACAP; j++) if (j >= i && j + 1 < a->len) a->pdata[j] = a->pdata[j + 1];
  a->len--;
  return p;
}
gpointer g_ptr_array_steal_index_fast (GPtrArray *ga, guint i)
{ PA *a = (PA *) ga; gpointer p = a->pdata[i]; a->pdata[i] = a->pdata[a->len - 1]; a->len--; return p; }
gpointer g_ptr_array_remove_index (GPtrArray *ga, guint i)
{ PA *a = (PA *) ga; gpointer p = g_ptr_array_steal_index (ga, i); if (a->fd) vp_destroy (a->fd, p); return p; }
gpointer g_ptr_array_remove_index_fast (GPtrArray *ga, guint i)
{ PA *a = (PA *) ga; gpointer p = g_ptr_array_steal_index_fast (ga, i); if (a->fd) vp_destroy (a->fd, p); return p; }
gboolean g_ptr_array_find (GPtrArray *ga, gconstpointer p, guint *ix)
{
  PA *a = (PA *) ga;
  for (guint i = 0; i < VP_PACAP; i++) {
    if (i >= a->len) break;
    if (a->pdata[i] == p) { if (ix) *ix = i; return TRUE; }
  }
  return FALSE;
}
gboolean g_ptr_array_remove (GPtrArray *ga, gpointer p)
{
  PA *a = (PA *) ga;
  for (guint i = 0; i < VP_PACAP; i++) { if (i >= a->len) break; if (a->pdata[i] == p) { g_ptr_array_remove_index (ga, i); return TRUE; } }
  return FALSE;
}
gboolean g_ptr_array_remove_fast (GPtrArray *ga, gpointer p)
{
  PA *a = (PA *) ga;
  for (guint i = 0; i < VP_PACAP; i++) { if (i >= a->len) break; if (a->pdata[i] == p) { g_ptr_array_remove_index_fast (ga, i); return TRUE; } }
  return FALSE;
}
void g_ptr_array_foreach (GPtrArray *ga, GFunc f, gpointer d)
{
  PA *a = (PA *) ga;
  for (guint i = 0; i < VP_PACAP; i++) { if (i >= a->len) break; vp_call2 (f, a->pdata[i], d); }
}
gpointer *g_ptr_array_free (GPtrArray *ga, gboolean seg)
{
  PA *a = (PA *) ga; gpointer *r = NULL;
  if (seg) {
    if (a->fd) for (guint i = 0; i < VP_PACAP; i++) { if (i >= a->len) break; vp_destroy (a->fd, a->pdata[i]); }
    free (a->pdata);
  } else r = a->pdata;
  free (a);
  return r;
}
void g_ptr_array_unref (GPtrArray *a) { if (--((PA *) a)->ref == 0) g_ptr_array_free (a, TRUE); }
GPtrArray *g_ptr_array_ref (GPtrArray *a) { ((PA *) a)->ref++; return a; }
void g_ptr_array_set_size (GPtrArray *ga, gint n)
{
  PA *a = (PA *) ga;
  VP_BOUND (n <= VP_PACAP, "pointer array entries <= VP_PACAP"); __CPROVER_assume (n <= VP_PACAP);
  for (guint i = 0; i < VP_PACAP; i++) { if (i >= n && i < a->len && a->fd) vp_destroy (a->fd, a->pdata[i]); if (i >= a->len && i < n) a->pdata[i] = NULL; }
  a->len = n;
}
static int vp_cmpcall (int (*cmp) (const void *, const void *), const void *a, const void *b) { return vp_calli ((void *) cmp, 2, a, b); }
/* insertion sort: any stable sort by a total preorder has the same result */
static void vp_sortp (gpointer *v, size_t n, int (*cmp) (const void *, const void *))
{
  for (size_t i = 1; i < VP_PACAP; i++) {
    if (i >= n) break;
    for (size_t j = i; j > 0; j--) {
      if (vp_cmpcall (cmp, &v[j - 1], &v[j]) <= 0) break;
      gpointer t = v[j - 1]; v[j - 1] = v[j]; v[j] = t;
    }
  }
}
void g_ptr_array_sort (GPtrArray *a, GCompareFunc cmp)
{ vp_sortp (a->pdata, a->len, (int (*) (const void *, const void *)) cmp); }
void vp_qsort (void *base, size_t n, size_t sz, int (*cmp) (const void *, const void *))
{
  __CPROVER_assert (sz == sizeof (gpointer), "VPBOUND qsort of pointers");
  VP_BOUND (n <= VP_PACAP, "pointer array entries <= VP_PACAP"); __CPROVER_assume (n <= VP_PACAP);
  vp_sortp ((gpointer *) base, n, cmp);
}

/* ---------------------------------------------------------- GSList, GList */
GSList *g_slist_prepend (GSList *l, gpointer d) { GSList *n = malloc (sizeof (GSList)); n->data = d; n->next = l; return n; }
GSList *g_slist_append (GSList *l, gpointer d)
{ GSList *n = malloc (sizeof (GSList)), *p = l; n->data = d; n->next = NULL; if (!l) return n; while (p->next) p = p->next; p->next = n; return l; }
void g_slist_free (GSList *l) { while (l) { GSList *n = l->next; free (l); l = n; } }
void g_slist_free_1 (GSList *l) { free (l); }
void g_slist_free_full (GSList *l, GDestroyNotify d) { while (l) { GSList *n = l->next; vp_destroy (d, l->data); free (l); l = n; } }
void g_slist_foreach (GSList *l, GFunc f, gpointer d) { while (l) { GSList *n = l->next; vp_call2 (f, l->data, d); l = n; } }
guint g_slist_length (GSList *l) { guint n = 0; while (l) { n++; l = l->next; } return n; }
GSList *g_slist_find (GSList *l, gconstpointer d) { while (l && l->data != d) l = l->next; return l; }
GSList *g_slist_reverse (GSList *l) { GSList *p = NULL; while (l) { GSList *n = l->next; l->next = p; p = l; l = n; } return p; }
GSList *g_slist_last (GSList *l) { if (l) while (l->next) l = l->next; return l; }
GSList *g_slist_remove (GSList *l, gconstpointer d)
{
  GSList *p = NULL, *c = l;
  while (c) { if (c->data == d) { if (p) p->next = c->next; else l = c->next; free (c); return l; } p = c; c = c->next; }
  return l;
}
GSList *g_slist_remove_all (GSList *l, gconstpointer d)
{
  GSList *p = NULL, *c = l;
  while (c) { GSList *n = c->next; if (c->data == d) { if (p) p->next = n; else l = n; free (c); } else p = c; c = n; }
  return l;
}
GSList *g_slist_delete_link (GSList *l, GSList *k)
{
  GSList *p = NULL, *c = l;
  while (c) { if (c == k) { if (p) p->next = c->next; else l = c->next; free (c); return l; } p = c; c = c->next; }
  return l;
}
GList *g_list_prepend (GList *l, gpointer d)
{ GList *n = malloc (sizeof (GList)); n->data = d; n->prev = NULL; n->next = l; if (l) l->prev = n; return n; }
GList *g_list_append (GList *l, gpointer d)
{
  GList *n = malloc (sizeof (GList)), *p = l; n->data = d; n->next = NULL; n->prev = NULL;
  if (!l) return n;
  while (p->next) p = p->next;
  p->next = n; n->prev = p; return l;
}
GList *g_list_last (GList *l) { if (l) while (l->next) l = l->next; return l; }
GList *g_list_first (GList *l) { if (l) while (l->prev) l = l->prev; return l; }
guint g_list_length (GList *l) { guint n = 0; while (l) { n++; l = l->next; } return n; }
void g_list_free (GList *l) { while (l) { GList *n = l->next; free (l); l = n; } }
void g_list_free_1 (GList *l) { free (l); }
void g_list_free_full (GList *l, GDestroyNotify d) { while (l) { GList *n = l->next; vp_destroy (d, l->data); free (l); l = n; } }
void g_list_foreach (GList *l, GFunc f, gpointer d) { while (l) { GList *n = l->next; vp_call2 (f, l->data, d); l = n; } }
GList *g_list_find (GList *l, gconstpointer d) { while (l && l->data != d) l = l->next; return l; }
GList *g_list_nth (GList *l, guint n) { while (n-- && l) l = l->next; return l; }
GList *g_list_reverse (GList *l) { GList *p = NULL; while (l) { p = l; l = p->next; p->next = p->prev; p->prev = l; } return p; }
GList *g_list_remove_link (GList *l, GList *k)
{
  if (!k) return l;
  if (k->prev) k->prev->next = k->next;
  if (k->next) k->next->prev = k->prev;
  if (k == l) l = l->next;
  k->next = k->prev = NULL;
  return l;
}
GList *g_list_delete_link (GList *l, GList *k) { l = g_list_remove_link (l, k); free (k); return l; }
GList *g_list_remove (GList *l, gconstpointer d)
{ GList *c = l; while (c) { if (c->data == d) return g_list_delete_link (l, c); c = c->next; } return l; }
GList *g_list_remove_all (GList *l, gconstpointer d)
{ GList *c = l; while (c) { GList *n = c->next; if (c->data == d) l = g_list_delete_link (l, c); c = n; } return l; }
GQueue *g_queue_new (void) { GQueue *q = malloc (sizeof (GQueue)); q->head = q->tail = NULL; q->length = 0; return q; }
void g_queue_init (GQueue *q) { q->head = q->tail = NULL; q->length = 0; }
void g_queue_push_tail (GQueue *q, gpointer d)
{ GList *n = malloc (sizeof (GList)); n->data = d; n->next = NULL; n->prev = q->tail; if (q->tail) q->tail->next = n; else q->head = n; q->tail = n; q->length++; }
gpointer g_queue_pop_head (GQueue *q)
{ GList *n = q->head; gpointer d; if (!n) return NULL; d = n->data; q->head = n->next; if (q->head) q->head->prev = NULL; else q->tail = NULL; q->length--; free (n); return d; }
gpointer g_queue_peek_tail (GQueue *q) { return q->tail ? q->tail->data : NULL; }
gpointer g_queue_peek_head (GQueue *q) { return q->head ? q->head->data : NULL; }
void g_queue_clear (GQueue *q) { g_list_free (q->head); g_queue_init (q); }
void g_queue_free (GQueue *q) { g_list_free (q->head); free (q); }

/* --------------------------------------------------------------- errors */
GQuark g_file_error_quark (void) { return 1; }
GQuark g_key_file_error_quark (void) { return 2; }
GQuark g_convert_error_quark (void) { return 3; }
GQuark g_io_channel_error_quark (void) { return 4; }
GError *vp_error_new (GQuark dom, int code)
{
  GError *e = malloc (sizeof (GError));
  char *m = malloc (2); m[0] = 'E'; m[1] = 0;
  e->domain = dom; e->code = code; e->message = m;
  return e;
}
GError *g_error_new (GQuark dom, gint code, const gchar *fmt, ...) { return vp_error_new (dom, code); }
GError *g_error_new_literal (GQuark dom, gint code, const gchar *m) { return vp_error_new (dom, code); }
void g_set_error (GError **e, GQuark d, gint c, const gchar *fmt, ...) { if (e) *e = vp_error_new (d, c); }
void g_set_error_literal (GError **e, GQuark d, gint c, const gchar *m) { if (e) *e = vp_error_new (d, c); }
void g_error_free (GError *e) { free (e->message); free (e); }
void g_clear_error (GError **e) { if (e && *e) { g_error_free (*e); *e = NULL; } }
gboolean g_error_matches (const GError *e, GQuark d, gint c) { return e && e->domain == d && e->code == c; }
void g_propagate_error (GError **dst, GError *src) { if (dst) *dst = src; else g_error_free (src); }
GFileError g_file_error_from_errno (gint e) { return e == EACCES ? G_FILE_ERROR_ACCES : e == ENOENT ? G_FILE_ERROR_NOENT : G_FILE_ERROR_FAILED; }
int vp_critical;                 /* g_return_if_fail and friends that fired */
void g_return_if_fail_warning (const char *d, const char *f, const char *e) { vp_critical++; }
void g_warn_message (const char *d, const char *f, int l, const char *fn, const char *w) { }
void g_assertion_message_expr (const char *d, const char *f, int l, const char *fn, const char *e)
{ __CPROVER_assert (0, "VP program aborts: g_assert failed"); __CPROVER_assume (0); }
void g_assertion_message (const char *d, const char *f, int l, const char *fn, const char *e)
{ __CPROVER_assert (0, "VP program aborts: g_assert failed"); __CPROVER_assume (0); }
void g_assertion_message_cmpnum (const char *d, const char *f, int l, const char *fn, const char *e, long double a, const char *c, long double b, char t)
{ __CPROVER_assert (0, "VP program aborts: g_assert failed"); __CPROVER_assume (0); }
void abort (void) { __CPROVER_assert (0, "VP program aborts"); __CPROVER_assume (0); }

/* -------------------------------------------------- text <-> numbers
 * Converting a number to decimal/hex text and back is libc's business and is
 * taken as the identity: a formatted number is a three byte token naming an
 * entry of vp_tok.  Layout, separators, widths of strings, conversion types
 * and truncation to the scanned C type are those of /repo's format strings. */
#ifndef VP_NTOK
# define VP_NTOK 64
#endif
struct vp_tok { _Bool isd, neg; uint64_t mag; double d; };
struct vp_tok vp_toks[VP_NTOK];
unsigned vp_ntok;
#define TOKMARK 0x01
static int vp_newtok (void)
{ unsigned t = vp_ntok; VP_BOUND (t < VP_NTOK, "formatted numbers <= VP_NTOK"); __CPROVER_assume (t < VP_NTOK); vp_ntok++; return t; }
int vp_tok_int (_Bool neg, uint64_t mag) { int t = vp_newtok (); vp_toks[t].isd = 0; vp_toks[t].neg = neg; vp_toks[t].mag = mag; vp_toks[t].d = 0; return t; }
int vp_tok_dbl (double d) { int t = vp_newtok (); vp_toks[t].isd = 1; vp_toks[t].d = d; vp_toks[t].neg = 0; vp_toks[t].mag = 0; return t; }
static void vp_put (char *b, size_t n, size_t *o, char c) { if (*o + 1 < n) b[*o] = c; (*o)++; }
void vp_put_tok (char *b, size_t n, size_t *o, int t)
{ vp_put (b, n, o, TOKMARK); vp_put (b, n, o, (char) (0x80 | (t >> 7))); vp_put (b, n, o, (char) (0x80 | (t & 0x7f))); }
/* digits of a small constant are written out, so that constant text stays constant text */
#define VP_SCALARS
size_t vp_vfmt (char *b, size_t n, const char *fmt, va_list ap)
{
  size_t o = 0;
  for (size_t i = 0; fmt[i]; i++) {
    char c = fmt[i];
    int lng = 0, prec = -1;
    if (c != '%') { vp_put (b, n, &o, c); continue; }
    i++;
    while (fmt[i] == '-' || fmt[i] == '+' || fmt[i] == ' ' || fmt[i] == '#' || fmt[i] == '0') i++;
    if (fmt[i] == '*') { (void) va_arg (ap, int); i++; }
    while (fmt[i] >= '0' && fmt[i] <= '9') i++;
    if (fmt[i] == '.') {
      i++; prec = 0;
      if (fmt[i] == '*') { prec = va_arg (ap, int); i++; }
      while (fmt[i] >= '0' && fmt[i] <= '9') { prec = prec * 10 + fmt[i] - '0'; i++; }
    }
    while (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't') {
      if (fmt[i] == 'h') lng--; else lng++;
      i++;
    }
    c = fmt[i];
    if (c == '%') vp_put (b, n, &o, '%');
    else if (c == 'c') vp_put (b, n, &o, (char) va_arg (ap, int));
    else if (c == 's') {
      const char *s = va_arg (ap, const char *);
      if (!s) s = "(null)";
      for (size_t k = 0; s[k] && (prec < 0 || k < (size_t) prec); k++) vp_put (b, n, &o, s[k]);
    } else if (c == 'd' || c == 'i') {
      long v = lng > 0 ? va_arg (ap, long) : (long) va_arg (ap, int);
      if (lng == -1) v = (short) v; else if (lng == -2) v = (signed char) v;
      vp_put_tok (b, n, &o, vp_tok_int (v < 0, v < 0 ? 0UL - (uint64_t) v : (uint64_t) v));
    } else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      uint64_t v = lng > 0 ? va_arg (ap, unsigned long) : (unsigned long) va_arg (ap, unsigned);
      if (lng == -1) v = (unsigned short) v; else if (lng == -2) v = (unsigned char) v;
      vp_put_tok (b, n, &o, vp_tok_int (0, v));
    } else if (c == 'p') {
      (void) va_arg (ap, void *); vp_put (b, n, &o, 'p');
    } else if (c == 'g' || c == 'f' || c == 'e' || c == 'G' || c == 'E' || c == 'F') {
      vp_put_tok (b, n, &o, vp_tok_dbl (va_arg (ap, double)));
    } else __CPROVER_assert (0, "VPBOUND unmodelled printf conversion");
  }
  if (n) b[o < n ? o : n - 1] = 0;
  return o;
}
int vp_snprintf (char *b, size_t n, const char *fmt, ...)
{ va_list ap; va_start (ap, fmt); size_t r = vp_vfmt (b, n, fmt, ap); va_end (ap); return (int) r; }
int vp_sprintf (char *b, const char *fmt, ...)
{ va_list ap; va_start (ap, fmt); size_t r = vp_vfmt (b, (size_t) 1 << 30, fmt, ap); va_end (ap); return (int) r; }
#ifndef VP_FMTCAP
# define VP_FMTCAP 64
#endif
gchar *g_strdup_printf (const gchar *fmt, ...)
{ va_list ap; char *b = malloc (VP_FMTCAP); va_start (ap, fmt); size_t r = vp_vfmt (b, VP_FMTCAP, fmt, ap); va_end (ap);
  return b; }

/* scanning */
struct vp_num { _Bool ok, isd, neg; uint64_t mag; double d; };
static struct vp_num vp_scannum (const char *s, size_t *pp, int base, _Bool real, size_t width)
{
  struct vp_num r; size_t p = *pp; unsigned nd = 0;
  r.ok = 0; r.isd = 0; r.neg = 0; r.mag = 0; r.d = 0;
  if (s[p] == TOKMARK) {
    int t = ((s[p + 1] & 0x7f) << 7) | (s[p + 2] & 0x7f);
    VP_BOUND (width >= 20, "field width of a scanned number >= 20");
    r.ok = 1; r.isd = vp_toks[t].isd; r.neg = vp_toks[t].neg; r.mag = vp_toks[t].mag; r.d = vp_toks[t].d;
    if (r.isd && !real) { r.neg = r.d < 0; __CPROVER_assume (0); } /* "%d" over a printed double: not modelled */
    *pp = p + 3;
    return r;
  }
  if (width && (s[p] == '-' || s[p] == '+')) { r.neg = s[p] == '-'; p++; width--; }
  if (base == 16 && width >= 2 && s[p] == '0' && (s[p + 1] == 'x' || s[p + 1] == 'X')) { p += 2; width -= 2; }
  for (; width; width--) {
    char c = s[p]; unsigned dg;
    if (c >= '0' && c <= '9') dg = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f') dg = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F') dg = c - 'A' + 10;
    else break;
    r.mag = r.mag * base + dg; nd++; p++;
  }
  if (real) {
    double v = (double) r.mag, sc = 1;
    if (s[p] == '.' && width) {
      p++; width--;
      for (; width && s[p] >= '0' && s[p] <= '9'; width--) { v = v * 10 + (s[p] - '0'); sc = sc * 10; nd++; p++; }
    }
    r.d = r.neg ? -(v / sc) : v / sc; r.isd = 1;
  }
  if (!nd) return r;
  r.ok = 1; *pp = p;
  return r;
}
static int64_t vp_sat (struct vp_num r)
{
  return r.neg ? (r.mag > (uint64_t) 1 << 63 ? INT64_MIN : (int64_t) (0UL - r.mag))
               : (r.mag > (uint64_t) INT64_MAX ? INT64_MAX : (int64_t) r.mag);
}
int vp_sscanf (const char *s, const char *fmt, ...)
{
  va_list ap; size_t p = 0; int n = 0;
  va_start (ap, fmt);
  for (size_t i = 0; fmt[i]; i++) {
    char c = fmt[i];
    _Bool sup = 0; size_t w = (size_t) 1 << 30; int lng = 0;
    if (vp_isspace (c)) { while (vp_isspace (s[p])) p++; continue; }
    if (c != '%') { if (s[p] != c) goto out; p++; continue; }
    i++;
    if (fmt[i] == '%') { while (vp_isspace (s[p])) p++; if (s[p] != '%') goto out; p++; continue; }
    if (fmt[i] == '*') { sup = 1; i++; }
    if (fmt[i] >= '0' && fmt[i] <= '9') { w = 0; while (fmt[i] >= '0' && fmt[i] <= '9') { w = w * 10 + fmt[i] - '0'; i++; } }
    while (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z' || fmt[i] == 'j') { if (fmt[i] == 'h') lng--; else lng++; i++; }
    c = fmt[i];
    if (c == 'n') { *va_arg (ap, int *) = (int) p; continue; }
    if (c == 's') {
      size_t k = 0; char *d = NULL;
      while (vp_isspace (s[p])) p++;
      if (!s[p]) { if (!n) n = -1; goto out; }
      if (!sup) d = va_arg (ap, char *);
      while (k < w && s[p] && !vp_isspace (s[p])) { if (d) d[k] = s[p]; k++; p++; }
      if (d) { d[k] = 0; n++; }
      continue;
    }
    if (c == 'c') {
      if (!s[p]) { if (!n) n = -1; goto out; }
      if (!sup) { *va_arg (ap, char *) = s[p]; n++; }
      p++; continue;
    }
    if (c == '[') {
      _Bool inv = 0; size_t a, b, k = 0; char *d = NULL;
      i++;
      if (fmt[i] == '^') { inv = 1; i++; }
      a = i; if (fmt[i] == ']') i++;
      while (fmt[i] && fmt[i] != ']') i++;
      b = i;
      if (!s[p]) { if (!n) n = -1; goto out; }
      if (!sup) d = va_arg (ap, char *);
      while (k < w && s[p]) {
        _Bool in = 0;
        for (size_t q = a; q < b; q++) {
          if (q + 2 < b && fmt[q + 1] == '-') { if (s[p] >= fmt[q] && s[p] <= fmt[q + 2]) in = 1; q += 2; }
          else if (fmt[q] == s[p]) in = 1;
        }
        if (in == inv) break;
        if (d) d[k] = s[p];
        k++; p++;
      }
      if (!k) goto out;
      if (d) { d[k] = 0; n++; }
      continue;
    }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X') {
      struct vp_num r;
      while (vp_isspace (s[p])) p++;
      if (!s[p]) { if (!n) n = -1; goto out; }
      r = vp_scannum (s, &p, c == 'x' || c == 'X' ? 16 : 10, 0, w);
      if (!r.ok) goto out;
      if (sup) continue;
      if (c == 'd' || c == 'i') {
        int64_t v = vp_sat (r);
        if (lng > 0) *va_arg (ap, int64_t *) = v; else if (lng == -1) *va_arg (ap, short *) = (short) v; else *va_arg (ap, int *) = (int) v;
      } else {
        uint64_t v = r.neg ? 0UL - r.mag : r.mag;
        if (lng > 0) *va_arg (ap, uint64_t *) = v; else if (lng == -1) *va_arg (ap, unsigned short *) = (unsigned short) v; else *va_arg (ap, unsigned *) = (unsigned) v;
      }
      n++;
      continue;
    }
    if (c == 'g' || c == 'f' || c == 'e' || c == 'G' || c == 'E' || c == 'F') {
      struct vp_num r; double v;
      while (vp_isspace (s[p])) p++;
      if (!s[p]) { if (!n) n = -1; goto out; }
      r = vp_scannum (s, &p, 10, 1, w);
      if (!r.ok) goto out;
      if (sup) continue;
      v = r.isd ? r.d : r.neg ? -(double) r.mag : (double) r.mag;
      if (lng > 0) *va_arg (ap, double *) = v; else *va_arg (ap, float *) = (float) v;
      n++;
      continue;
    }
    __CPROVER_assert (0, "VPBOUND unmodelled scanf conversion");
  }
out:
  va_end (ap);
  return n;
}
static struct vp_num vp_strtonum (const char *s, char **e, int base, _Bool real)
{
  size_t p = 0; while (vp_isspace (s[p])) p++;
  struct vp_num r = vp_scannum (s, &p, base, real, (size_t) 1 << 30);
  if (e) *e = (char *) s + (r.ok ? p : 0);
  return r;
}
/* expressions, not branches */
long strtol (const char *s, char **e, int base) { struct vp_num r = vp_strtonum (s, e, base == 16 ? 16 : 10, 0); return r.ok ? vp_sat (r) : 0; }
long long strtoll (const char *s, char **e, int base) { struct vp_num r = vp_strtonum (s, e, base == 16 ? 16 : 10, 0); return r.ok ? vp_sat (r) : 0; }
unsigned long strtoul (const char *s, char **e, int base) { struct vp_num r = vp_strtonum (s, e, base == 16 ? 16 : 10, 0); return r.ok ? (r.neg ? 0UL - r.mag : r.mag) : 0; }
unsigned long long strtoull (const char *s, char **e, int base) { return strtoul (s, e, base); }
gint64 g_ascii_strtoll (const gchar *s, gchar **e, guint base) { return strtol (s, e, base); }
guint64 g_ascii_strtoull (const gchar *s, gchar **e, guint base) { return strtoul (s, e, base); }
double strtod (const char *s, char **e) { struct vp_num r = vp_strtonum (s, e, 10, 1); return !r.ok ? 0 : r.isd ? r.d : r.neg ? -(double) r.mag : (double) r.mag; }
gdouble g_ascii_strtod (const gchar *s, gchar **e) { return strtod (s, e); }
int atoi (const char *s) { return (int) strtol (s, NULL, 10); }
long atol (const char *s) { return strtol (s, NULL, 10); }

/* GString */
#ifndef VP_GSCAP
# define VP_GSCAP 96
#endif
GString *g_string_sized_new (gsize n)
{ GString *s = malloc (sizeof (GString)); s->str = malloc (VP_GSCAP); s->str[0] = 0; s->len = 0; s->allocated_len = VP_GSCAP; return s; }
GString *(g_string_new) (const gchar *i) { GString *s = g_string_sized_new (0); if (i) g_string_append (s, i); return s; }
gchar *(g_string_free) (GString *s, gboolean seg) { gchar *r = NULL; if (seg) free (s->str); else r = s->str; free (s); return r; }
gchar *g_string_free_and_steal (GString *s) { gchar *r = s->str; free (s); return r; }
GString *(g_string_append_len) (GString *s, const gchar *v, gssize n)
{
  gsize k = n < 0 ? vp_len (v) : (gsize) n;
  VP_BOUND (s->len + k < VP_GSCAP, "line length < VP_GSCAP"); __CPROVER_assume (s->len + k < VP_GSCAP);
  for (gsize i = 0; i < k; i++) s->str[s->len + i] = v[i];
  s->len += k; s->str[s->len] = 0;
  return s;
}
GString *(g_string_append) (GString *s, const gchar *v) { return (g_string_append_len) (s, v, -1); }
GString *(g_string_append_c) (GString *s, gchar c) { return (g_string_append_len) (s, &c, 1); }
GString *g_string_insert_len (GString *s, gssize p, const gchar *v, gssize n) { __CPROVER_assert (p < 0, "VPBOUND g_string_insert_len"); return (g_string_append_len) (s, v, n); }
GString *g_string_insert_c (GString *s, gssize p, gchar c) { __CPROVER_assert (p < 0, "VPBOUND g_string_insert_c"); return (g_string_append_len) (s, &c, 1); }
GString *(g_string_truncate) (GString *s, gsize n) { if (n < s->len) { s->len = n; s->str[n] = 0; } return s; }
GString *g_string_set_size (GString *s, gsize n) { s->len = n; s->str[n] = 0; return s; }
GString *g_string_assign (GString *s, const gchar *v) { s->len = 0; return (g_string_append_len) (s, v, -1); }
void vp_g_string_printf (GString *s, const char *fmt, ...)
{
  va_list ap; va_start (ap, fmt); size_t r = vp_vfmt (s->str, VP_GSCAP, fmt, ap); va_end (ap);
  VP_BOUND (r < VP_GSCAP, "line length < VP_GSCAP"); __CPROVER_assume (r < VP_GSCAP);
  s->len = r;
}
void vp_g_string_append_printf (GString *s, const char *fmt, ...)
{
  va_list ap; va_start (ap, fmt); size_t r = vp_vfmt (s->str + s->len, VP_GSCAP - s->len, fmt, ap); va_end (ap);
  VP_BOUND (s->len + r < VP_GSCAP, "line length < VP_GSCAP"); __CPROVER_assume (s->len + r < VP_GSCAP);
  s->len += r;
}

/* URIs: "file://" and %XX for bytes outside GLib's path set */
static _Bool vp_uri_plain (unsigned char c)
{
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
      || c == '/' || c == '-' || c == '_' || c == '.' || c == '~' || c == '!' || c == '$' || c == '&' || c == '\''
      || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ':' || c == '=' || c == '@';
}
gchar *g_filename_to_uri (const gchar *f, const gchar *host, GError **e)
{
  size_t n = vp_len (f), o = 7, m = 7;
  if (f[0] != '/') { if (e) *e = vp_error_new (3, 5); return NULL; }
  for (size_t i = 0; i < n; i++) m += vp_uri_plain (f[i]) ? 1 : 3;
  char *r = malloc (m + 1);
  r[0] = 'f'; r[1] = 'i'; r[2] = 'l'; r[3] = 'e'; r[4] = ':'; r[5] = '/'; r[6] = '/';
  for (size_t i = 0; i < n; i++) {
    unsigned char c = f[i];
    if (vp_uri_plain (c)) r[o++] = c;
    else { r[o++] = '%'; r[o++] = "0123456789ABCDEF"[c >> 4]; r[o++] = "0123456789ABCDEF"[c & 15]; }
  }
  r[o] = 0;
  return r;
}
static int vp_hex (char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
gchar *g_filename_from_uri (const gchar *u, gchar **host, GError **e)
{
  size_t o = 0, i, n = vp_len (u);
  if (host) *host = NULL;
  if (strncmp (u, "file:/", 6)) { if (e) *e = vp_error_new (3, 4); return NULL; }
  if (u[6] == '/' && u[7] != '/') {
    /* a host name: only local URIs are modelled */
    if (e) *e = vp_error_new (3, 4);
    return NULL;
  }
  i = u[6] == '/' ? 7 : 5;
  char *r = malloc (n - i + 1);
  for (; i < n; i++) {
    if (u[i] == '#') { free (r); if (e) *e = vp_error_new (3, 4); return NULL; }
    if (u[i] == '%') {
      int a = vp_hex (u[i + 1]), b = a < 0 ? -1 : vp_hex (u[i + 2]);
      if (a < 0 || b < 0 || (a == 0 && b == 0) || a * 16 + b == '/') { free (r); if (e) *e = vp_error_new (3, 4); return NULL; }
      r[o++] = (char) (a * 16 + b); i += 2;
    } else r[o++] = u[i];
  }
  r[o] = 0;
  return r;
}

/* ------------------------------------------------------------------ libm
 * fabs, fmin, fmax, isnan are exact; exp/log/sqrt are contracts: any value
 * satisfying the sign and range facts below. */
double fabs (double x) { return x < 0 ? -x : x == 0 ? 0 : x; }
double fmin (double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax (double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
#ifndef VP_OWN_LIBM
double vp_log_e (double x)
{
  double r = nondet_double ();
  if (x != x || x < 0) return 0.0 / 0.0;
  if (x == 0) return -1.0 / 0.0;
  __CPROVER_assume (r == r && r <= x - 1 && r >= -746 && r <= 710);
  if (x < 1) __CPROVER_assume (r < 0 && r >= (x - 1) / x);
  else if (x == 1) __CPROVER_assume (r == 0);
  else __CPROVER_assume (r > 0);
  return r;
}
double vp_log1p (double x) { return vp_log_e (1 + x); }
double vp_exp (double x)
{
  double r = nondet_double ();
  if (x != x) return x;
  __CPROVER_assume (r >= 0);
  if (x == 0) __CPROVER_assume (r == 1);
  else if (x < 0) __CPROVER_assume (r <= 1 && r >= 1 + x && (x > -745 || r < 1e-300));
  else __CPROVER_assume (r >= 1 + x);
  if (x < -1e-15) __CPROVER_assume (r < 1);
  return r;
}
double vp_expm1 (double x) { return vp_exp (x) - 1; }
double vp_sqrt (double x)
{
  double r = nondet_double ();
  if (x != x || x < 0) return 0.0 / 0.0;
  if (x == 0) return x;
  __CPROVER_assume (r > 0 && r * r >= x * (1 - 1e-15) && r * r <= x * (1 + 1e-15));
  return r;
}
#endif
#undef errno
int vp_errno_v;
int *__errno_location (void) { return &vp_errno_v; }

int main (void) { vp_main (); return 0; }
