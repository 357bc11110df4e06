/* env_default.c - weak stand-ins: a call that the
   harness at hand has no stand-in for is reported as outside the encoding. */
#define VP_NO_REDIRECT
#include "redirect.h"
#include "vp.h"
#ifdef VP_CBMC
# define UNMODELLED(n) do { __CPROVER_assert (0, "VPBOUND unmodelled call " n); __CPROVER_assume (0); } while (0)
#else
# include <stdio.h>
# define UNMODELLED(n) do { fprintf (stderr, "VP_ASSUME unmodelled call %s\n", n); _exit (77); } while (0)
#endif
__attribute__((weak)) int vp_open (const char *path, int flags, ...) { UNMODELLED ("open"); return (int) 0; }
__attribute__((weak)) int vp_openat (int dirfd, const char *path, int flags, ...) { UNMODELLED ("openat"); return (int) 0; }
__attribute__((weak)) int vp_close (int fd) { UNMODELLED ("close"); return (int) 0; }
__attribute__((weak)) ssize_t vp_read (int fd, void *buf, size_t n) { UNMODELLED ("read"); return (ssize_t) 0; }
__attribute__((weak)) ssize_t vp_write (int fd, const void *buf, size_t n) { UNMODELLED ("write"); return (ssize_t) 0; }
__attribute__((weak)) ssize_t vp_readlink (const char *path, char *buf, size_t n) { UNMODELLED ("readlink"); return (ssize_t) 0; }
__attribute__((weak)) FILE * vp_fopen (const char *path, const char *mode) { UNMODELLED ("fopen"); return (FILE *) 0; }
__attribute__((weak)) char * vp_fgets (char *buf, int n, FILE *f) { UNMODELLED ("fgets"); return (char *) 0; }
__attribute__((weak)) ssize_t vp_getline (char **line, size_t *n, FILE *f) { UNMODELLED ("getline"); return (ssize_t) 0; }
__attribute__((weak)) int vp_fclose (FILE *f) { UNMODELLED ("fclose"); return (int) 0; }
__attribute__((weak)) int vp_feof (FILE *f) { UNMODELLED ("feof"); return (int) 0; }
__attribute__((weak)) int vp_ferror (FILE *f) { UNMODELLED ("ferror"); return (int) 0; }
__attribute__((weak)) int vp_stat (const char *path, struct stat *st) { UNMODELLED ("stat"); return (int) 0; }
__attribute__((weak)) int vp_lstat (const char *path, struct stat *st) { UNMODELLED ("lstat"); return (int) 0; }
__attribute__((weak)) int vp_fstat (int fd, struct stat *st) { UNMODELLED ("fstat"); return (int) 0; }
__attribute__((weak)) int vp_access (const char *path, int mode) { UNMODELLED ("access"); return (int) 0; }
__attribute__((weak)) int vp_fsync (int fd) { UNMODELLED ("fsync"); return (int) 0; }
__attribute__((weak)) int vp_ioctl (int fd, unsigned long req, ...) { UNMODELLED ("ioctl"); return (int) 0; }
__attribute__((weak)) pid_t vp_fork (void) { UNMODELLED ("fork"); return (pid_t) 0; }
__attribute__((weak)) pid_t vp_wait (int *status) { UNMODELLED ("wait"); return (pid_t) 0; }
__attribute__((weak)) pid_t vp_waitpid (pid_t pid, int *status, int options) { UNMODELLED ("waitpid"); return (pid_t) 0; }
__attribute__((weak)) void vp_exit (int code) { UNMODELLED ("exit"); for (;;); }
__attribute__((weak)) ssize_t vp_readahead (int fd, off_t offset, size_t count) { UNMODELLED ("readahead"); return (ssize_t) 0; }
__attribute__((weak)) int vp_posix_fadvise (int fd, off_t offset, off_t len, int advice) { UNMODELLED ("posix_fadvise"); return (int) 0; }
__attribute__((weak)) void * vp_mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off) { UNMODELLED ("mmap"); return (void *) 0; }
__attribute__((weak)) int vp_munmap (void *addr, size_t len) { UNMODELLED ("munmap"); return (int) 0; }
__attribute__((weak)) int vp_madvise (void *addr, size_t len, int advice) { UNMODELLED ("madvise"); return (int) 0; }
__attribute__((weak)) long vp_syscall (long nr, ...) { return 0; }
__attribute__((weak)) int vp_rename (const char *from, const char *to) { UNMODELLED ("rename"); return (int) 0; }
__attribute__((weak)) int vp_unlink (const char *path) { UNMODELLED ("unlink"); return (int) 0; }
__attribute__((weak)) int vp_clock_gettime (clockid_t id, struct timespec *ts) { UNMODELLED ("clock_gettime"); return (int) 0; }
__attribute__((weak)) time_t vp_time (time_t *t) { UNMODELLED ("time"); return (time_t) 0; }
__attribute__((weak)) char * vp_ctime (const time_t *t) { UNMODELLED ("ctime"); return (char *) 0; }
__attribute__((weak)) DIR * vp_opendir (const char *path) { UNMODELLED ("opendir"); return (DIR *) 0; }
__attribute__((weak)) struct dirent * vp_readdir (DIR *d) { UNMODELLED ("readdir"); return (struct dirent *) 0; }
__attribute__((weak)) int vp_closedir (DIR *d) { UNMODELLED ("closedir"); return (int) 0; }
__attribute__((weak)) pid_t vp_getpid (void) { UNMODELLED ("getpid"); return (pid_t) 0; }
__attribute__((weak)) int vp_getpagesize (void) { return 4096; }
__attribute__((weak)) pid_t vp_setsid (void) { UNMODELLED ("setsid"); return (pid_t) 0; }
__attribute__((weak)) mode_t vp_umask (mode_t m) { UNMODELLED ("umask"); return (mode_t) 0; }
__attribute__((weak)) int vp_chdir (const char *p) { UNMODELLED ("chdir"); return (int) 0; }
__attribute__((weak)) int vp_execl (const char *p, const char *a, ...) { UNMODELLED ("execl"); return (int) 0; }
__attribute__((weak)) int vp_nice (int inc) { UNMODELLED ("nice"); return (int) 0; }
__attribute__((weak)) int vp_dup2 (int a, int b) { UNMODELLED ("dup2"); return (int) 0; }
__attribute__((weak)) int vp_fflush (FILE *f) { return 0; }
__attribute__((weak)) void vp_signal (int sig, void (*h)(int)) { UNMODELLED ("signal"); }
__attribute__((weak)) int vp_sigaction (int sig, const struct sigaction *act, struct sigaction *old) { UNMODELLED ("sigaction"); return (int) 0; }
__attribute__((weak)) int vp_getopt_long (int argc, char *const *argv, const char *so, const struct option *lo, int *li) { UNMODELLED ("getopt_long"); return (int) 0; }
__attribute__((weak)) guint vp_g_timeout_add (guint ms, GSourceFunc f, gpointer data) { UNMODELLED ("g_timeout_add"); return (guint) 0; }
__attribute__((weak)) guint vp_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer data) { UNMODELLED ("g_timeout_add_seconds"); return (guint) 0; }
__attribute__((weak)) guint vp_g_idle_add (GSourceFunc f, gpointer data) { UNMODELLED ("g_idle_add"); return (guint) 0; }
__attribute__((weak)) guint vp_g_unix_signal_add (gint sig, GSourceFunc f, gpointer data) { UNMODELLED ("g_unix_signal_add"); return (guint) 0; }
__attribute__((weak)) GMainLoop * vp_g_main_loop_new (GMainContext *c, gboolean r) { UNMODELLED ("g_main_loop_new"); return (GMainLoop *) 0; }
__attribute__((weak)) void vp_g_main_loop_run (GMainLoop *l) { UNMODELLED ("g_main_loop_run"); }
__attribute__((weak)) void vp_g_main_loop_quit (GMainLoop *l) { UNMODELLED ("g_main_loop_quit"); }
__attribute__((weak)) void vp_g_main_loop_unref (GMainLoop *l) { UNMODELLED ("g_main_loop_unref"); }
__attribute__((weak)) GIOChannel * vp_g_io_channel_new_file (const char *p, const char *m, GError **e) { UNMODELLED ("g_io_channel_new_file"); return (GIOChannel *) 0; }
__attribute__((weak)) GIOChannel * vp_g_io_channel_unix_new (int fd) { UNMODELLED ("g_io_channel_unix_new"); return (GIOChannel *) 0; }
__attribute__((weak)) void vp_g_io_channel_unref (GIOChannel *c) { UNMODELLED ("g_io_channel_unref"); }
__attribute__((weak)) GIOStatus vp_g_io_channel_write_chars (GIOChannel *c, const char *s, gssize n, gsize *w, GError **e) { UNMODELLED ("g_io_channel_write_chars"); return (GIOStatus) 0; }
__attribute__((weak)) GIOStatus vp_g_io_channel_flush (GIOChannel *c, GError **e) { UNMODELLED ("g_io_channel_flush"); return (GIOStatus) 0; }
__attribute__((weak)) GIOStatus vp_g_io_channel_shutdown (GIOChannel *c, gboolean flush, GError **e) { UNMODELLED ("g_io_channel_shutdown"); return (GIOStatus) 0; }
__attribute__((weak)) GIOStatus vp_g_io_channel_read_line_string (GIOChannel *c, GString *b, gsize *tp, GError **e) { UNMODELLED ("g_io_channel_read_line_string"); return (GIOStatus) 0; }
__attribute__((weak)) GIOStatus vp_g_io_channel_read_line (GIOChannel *c, gchar **s, gsize *len, gsize *tp, GError **e) { UNMODELLED ("g_io_channel_read_line"); return (GIOStatus) 0; }
__attribute__((weak)) gboolean vp_g_file_test (const char *p, GFileTest t) { UNMODELLED ("g_file_test"); return (gboolean) 0; }
__attribute__((weak)) gboolean vp_g_file_get_contents (const char *p, gchar **c, gsize *n, GError **e) { UNMODELLED ("g_file_get_contents"); return (gboolean) 0; }
__attribute__((weak)) gboolean vp_g_key_file_load_from_file (GKeyFile *k, const char *p, GKeyFileFlags f, GError **e) { UNMODELLED ("g_key_file_load_from_file"); return (gboolean) 0; }
__attribute__((weak)) GKeyFile * vp_g_key_file_new (void) { UNMODELLED ("g_key_file_new"); return 0; }
__attribute__((weak)) void vp_g_key_file_free (GKeyFile *k) { UNMODELLED ("g_key_file_free"); }
__attribute__((weak)) gint vp_g_key_file_get_integer (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_get_integer"); return 0; }
__attribute__((weak)) gboolean vp_g_key_file_get_boolean (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_get_boolean"); return 0; }
__attribute__((weak)) gchar * vp_g_key_file_get_string (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_get_string"); return 0; }
__attribute__((weak)) gchar * vp_g_key_file_get_value (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_get_value"); return 0; }
__attribute__((weak)) gchar ** vp_g_key_file_get_string_list (GKeyFile *k, const char *g, const char *key, gsize *n, GError **e) { UNMODELLED ("g_key_file_get_string_list"); return 0; }
__attribute__((weak)) gboolean vp_g_key_file_has_key (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_has_key"); return 0; }
__attribute__((weak)) gboolean vp_g_key_file_has_group (GKeyFile *k, const char *g) { UNMODELLED ("g_key_file_has_group"); return 0; }
__attribute__((weak)) void vp_g_key_file_set_value (GKeyFile *k, const char *g, const char *key, const char *v) { UNMODELLED ("g_key_file_set_value"); }
__attribute__((weak)) gboolean vp_g_key_file_remove_key (GKeyFile *k, const char *g, const char *key, GError **e) { UNMODELLED ("g_key_file_remove_key"); return 0; }
__attribute__((weak)) int vp_fprintf (FILE *f, const char *fmt, ...) { return 0; }
__attribute__((weak)) int vp_printf (const char *fmt, ...) { return 0; }
__attribute__((weak)) int vp_fputs (const char *s, FILE *f) { return 0; }
__attribute__((weak)) int vp_fputc (int c, FILE *f) { return 0; }
__attribute__((weak)) int vp_puts (const char *s) { return 0; }
/* messages are discarded; an ERROR level message ends the program */
__attribute__((weak)) void vp_fatal (void) { UNMODELLED ("g_error"); }
void vp_fatal (void);
void vp_log (const char *domain, int level, const char *fmt, ...) { if (level & G_LOG_LEVEL_ERROR) { vp_fatal (); VP_DONE (); } }
