/* redirect.h - force-included (-include) before every source of /repo.
 * The calls through which the program talks to the system become calls of
 * stand-ins (vp_*), defined by the harness or by env.c.  System and GLib
 * headers are read first, so that only calls in /repo's text are affected. */
#ifndef VP_REDIRECT_H
#define VP_REDIRECT_H
#ifndef _GNU_SOURCE
# define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
#include <fcntl.h>
#include <ctype.h>
#include <math.h>
#include <time.h>
#include <dirent.h>
#include <signal.h>
#include <grp.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <linux/fs.h>
#include <glib.h>
#include <glib/gstdio.h>

int    vp_open (const char *path, int flags, ...);
int    vp_openat (int dirfd, const char *path, int flags, ...);
int    vp_close (int fd);
ssize_t vp_read (int fd, void *buf, size_t n);
ssize_t vp_write (int fd, const void *buf, size_t n);
ssize_t vp_readlink (const char *path, char *buf, size_t n);
FILE * vp_fopen (const char *path, const char *mode);
char * vp_fgets (char *buf, int n, FILE *f);
ssize_t vp_getline (char **line, size_t *n, FILE *f);
int    vp_fclose (FILE *f);
int    vp_feof (FILE *f);
int    vp_ferror (FILE *f);
int    vp_stat (const char *path, struct stat *st);
int    vp_lstat (const char *path, struct stat *st);
int    vp_fstat (int fd, struct stat *st);
int    vp_access (const char *path, int mode);
int    vp_fsync (int fd);
int    vp_ioctl (int fd, unsigned long req, ...);
pid_t  vp_fork (void);
pid_t  vp_wait (int *status);
pid_t  vp_waitpid (pid_t pid, int *status, int options);
void   vp_exit (int code) __attribute__((noreturn));
ssize_t vp_readahead (int fd, off_t offset, size_t count);
int    vp_posix_fadvise (int fd, off_t offset, off_t len, int advice);
void * vp_mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off);
int    vp_munmap (void *addr, size_t len);
int    vp_madvise (void *addr, size_t len, int advice);
long   vp_syscall (long nr, ...);
int    vp_rename (const char *from, const char *to);
int    vp_unlink (const char *path);
int    vp_clock_gettime (clockid_t id, struct timespec *ts);
time_t vp_time (time_t *t);
char * vp_ctime (const time_t *t);
DIR *  vp_opendir (const char *path);
struct dirent *vp_readdir (DIR *d);
int    vp_closedir (DIR *d);
pid_t  vp_getpid (void);
int    vp_getpagesize (void);
pid_t  vp_setsid (void);
mode_t vp_umask (mode_t m);
int    vp_chdir (const char *p);
int    vp_execl (const char *p, const char *a, ...);
int    vp_nice (int inc);
int    vp_dup2 (int a, int b);
int    vp_fflush (FILE *f);
void   vp_signal (int sig, void (*h)(int));
int    vp_sigaction (int sig, const struct sigaction *act, struct sigaction *old);
int    vp_getopt_long (int argc, char *const *argv, const char *so, const struct option *lo, int *li);
guint  vp_g_timeout_add (guint ms, GSourceFunc f, gpointer data);
guint  vp_g_timeout_add_seconds (guint s, GSourceFunc f, gpointer data);
guint  vp_g_idle_add (GSourceFunc f, gpointer data);
guint  vp_g_unix_signal_add (gint sig, GSourceFunc f, gpointer data);
GMainLoop * vp_g_main_loop_new (GMainContext *c, gboolean r);
void   vp_g_main_loop_run (GMainLoop *l);
void   vp_g_main_loop_quit (GMainLoop *l);
void   vp_g_main_loop_unref (GMainLoop *l);
GIOChannel * vp_g_io_channel_new_file (const char *p, const char *m, GError **e);
GIOChannel * vp_g_io_channel_unix_new (int fd);
void   vp_g_io_channel_unref (GIOChannel *c);
GIOStatus vp_g_io_channel_write_chars (GIOChannel *c, const char *s, gssize n, gsize *w, GError **e);
GIOStatus vp_g_io_channel_flush (GIOChannel *c, GError **e);
GIOStatus vp_g_io_channel_shutdown (GIOChannel *c, gboolean flush, GError **e);
GIOStatus vp_g_io_channel_read_line_string (GIOChannel *c, GString *b, gsize *tp, GError **e);
GIOStatus vp_g_io_channel_read_line (GIOChannel *c, gchar **s, gsize *len, gsize *tp, GError **e);
gboolean vp_g_file_test (const char *p, GFileTest t);
gboolean vp_g_file_get_contents (const char *p, gchar **c, gsize *n, GError **e);
gboolean vp_g_key_file_load_from_file (GKeyFile *k, const char *p, GKeyFileFlags f, GError **e);
GKeyFile * vp_g_key_file_new (void);
void vp_g_key_file_free (GKeyFile *k);
gint vp_g_key_file_get_integer (GKeyFile *k, const char *g, const char *key, GError **e);
gboolean vp_g_key_file_get_boolean (GKeyFile *k, const char *g, const char *key, GError **e);
gchar * vp_g_key_file_get_string (GKeyFile *k, const char *g, const char *key, GError **e);
gchar * vp_g_key_file_get_value (GKeyFile *k, const char *g, const char *key, GError **e);
gchar ** vp_g_key_file_get_string_list (GKeyFile *k, const char *g, const char *key, gsize *n, GError **e);
gboolean vp_g_key_file_has_key (GKeyFile *k, const char *g, const char *key, GError **e);
gboolean vp_g_key_file_has_group (GKeyFile *k, const char *g);
void vp_g_key_file_set_value (GKeyFile *k, const char *g, const char *key, const char *v);
gboolean vp_g_key_file_remove_key (GKeyFile *k, const char *g, const char *key, GError **e);
int    vp_fprintf (FILE *f, const char *fmt, ...) __attribute__((format(printf,2,3)));
int    vp_printf (const char *fmt, ...) __attribute__((format(printf,1,2)));
int    vp_fputs (const char *s, FILE *f);
int    vp_fputc (int c, FILE *f);
int    vp_puts (const char *s);
void   vp_log (const char *domain, int level, const char *fmt, ...);
int    vp_snprintf (char *b, size_t n, const char *fmt, ...);
int    vp_sprintf (char *b, const char *fmt, ...);
int    vp_sscanf (const char *s, const char *fmt, ...);
void   vp_g_string_printf (GString *s, const char *fmt, ...);
void   vp_g_string_append_printf (GString *s, const char *fmt, ...);
void   vp_qsort (void *base, size_t n, size_t sz, int (*cmp)(const void*, const void*));
int vp_isdigit (int c);
int vp_isspace (int c);
int vp_isxdigit (int c);
int vp_isalpha (int c);
int vp_isalnum (int c);
double vp_log_e (double x);
double vp_log1p (double x);
double vp_exp (double x);
double vp_expm1 (double x);
double vp_sqrt (double x);
int    vp_conf_key (void *kf, const char *g, const char *k);

#ifndef VP_NO_REDIRECT
#define open(...)        vp_open(__VA_ARGS__)
#define openat(...)      vp_openat(__VA_ARGS__)
#define close(a)         vp_close(a)
#define read(a,b,c)      vp_read(a,b,c)
#define write(a,b,c)     vp_write(a,b,c)
#define readlink(a,b,c)  vp_readlink(a,b,c)
#define fopen(a,b)       vp_fopen(a,b)
#define fgets(a,b,c)     vp_fgets(a,b,c)
#define getline(a,b,c)   vp_getline(a,b,c)
#define fclose(a)        vp_fclose(a)
#undef feof
#define feof(a)          vp_feof(a)
#undef ferror
#define ferror(a)        vp_ferror(a)
#define stat(a,b)        vp_stat(a,b)
#define lstat(a,b)       vp_lstat(a,b)
#define fstat(a,b)       vp_fstat(a,b)
#define access(a,b)      vp_access(a,b)
#define fsync(a)         vp_fsync(a)
#define fdatasync(a)     vp_fsync(a)
#define ioctl(...)       vp_ioctl(__VA_ARGS__)
#define fork()           vp_fork()
#define wait(a)          vp_wait(a)
#define waitpid(a,b,c)   vp_waitpid(a,b,c)
#define exit(a)          vp_exit(a)
#define _exit(a)         vp_exit(a)
#define _Exit(a)         vp_exit(a)
#define readahead(a,b,c) vp_readahead(a,b,c)
#define posix_fadvise(a,b,c,d) vp_posix_fadvise(a,b,c,d)
#define mmap(a,b,c,d,e,f) vp_mmap(a,b,c,d,e,f)
#define munmap(a,b)      vp_munmap(a,b)
#define madvise(a,b,c)   vp_madvise(a,b,c)
#define posix_madvise(a,b,c) vp_madvise(a,b,c)
#define syscall(...)     vp_syscall(__VA_ARGS__)
#define rename(a,b)      vp_rename(a,b)
#define unlink(a)        vp_unlink(a)
#define remove(a)        vp_unlink(a)
#define clock_gettime(a,b) vp_clock_gettime(a,b)
#define time(a)          vp_time(a)
#define ctime(a)         vp_ctime(a)
#define opendir(a)       vp_opendir(a)
#define readdir(a)       vp_readdir(a)
#define closedir(a)      vp_closedir(a)
#define getpid()         vp_getpid()
#define getpagesize()    vp_getpagesize()
#define setsid()         vp_setsid()
#define umask(a)         vp_umask(a)
#define chdir(a)         vp_chdir(a)
#define execl(...)       vp_execl(__VA_ARGS__)
#define nice(a)          vp_nice(a)
#define dup2(a,b)        vp_dup2(a,b)
#define fflush(a)        vp_fflush(a)
#define signal(a,b)      vp_signal(a,b)
#define sigaction(a,b,c) vp_sigaction(a,b,c)
#define getopt_long(a,b,c,d,e) vp_getopt_long(a,b,c,d,e)
#define g_timeout_add(a,b,c) vp_g_timeout_add(a,b,c)
#define g_timeout_add_seconds(a,b,c) vp_g_timeout_add_seconds(a,b,c)
#define g_idle_add(a,b) vp_g_idle_add(a,b)
#define g_main_loop_new(a,b) vp_g_main_loop_new(a,b)
#define g_main_loop_run(a) vp_g_main_loop_run(a)
#define g_main_loop_quit(a) vp_g_main_loop_quit(a)
#define g_main_loop_unref(a) vp_g_main_loop_unref(a)
#define g_io_channel_new_file(a,b,c) vp_g_io_channel_new_file(a,b,c)
#define g_io_channel_unix_new(a) vp_g_io_channel_unix_new(a)
#define g_io_channel_unref(a) vp_g_io_channel_unref(a)
#define g_io_channel_write_chars(a,b,c,d,e) vp_g_io_channel_write_chars(a,b,c,d,e)
#define g_io_channel_flush(a,b) vp_g_io_channel_flush(a,b)
#define g_io_channel_shutdown(a,b,c) vp_g_io_channel_shutdown(a,b,c)
#define g_io_channel_read_line_string(a,b,c,d) vp_g_io_channel_read_line_string(a,b,c,d)
#define g_io_channel_read_line(a,b,c,d,e) vp_g_io_channel_read_line(a,b,c,d,e)
#define g_file_test(a,b) vp_g_file_test(a,b)
#define g_file_get_contents(a,b,c,d) vp_g_file_get_contents(a,b,c,d)
#define g_key_file_load_from_file(a,b,c,d) vp_g_key_file_load_from_file(a,b,c,d)
#define g_key_file_new() vp_g_key_file_new()
#define g_key_file_free(a) vp_g_key_file_free(a)
#define g_key_file_get_integer(a,b,c,d) vp_g_key_file_get_integer(a,b,c,d)
#define g_key_file_get_boolean(a,b,c,d) vp_g_key_file_get_boolean(a,b,c,d)
#define g_key_file_get_string(a,b,c,d) vp_g_key_file_get_string(a,b,c,d)
#define g_key_file_get_value(a,b,c,d) vp_g_key_file_get_value(a,b,c,d)
#define g_key_file_get_string_list(a,b,c,d,e) vp_g_key_file_get_string_list(a,b,c,d,e)
#define g_key_file_has_key(a,b,c,d) vp_g_key_file_has_key(a,b,c,d)
#define g_key_file_has_group(a,b) vp_g_key_file_has_group(a,b)
#define g_key_file_set_value(a,b,c,d) vp_g_key_file_set_value(a,b,c,d)
#define g_key_file_remove_key(a,b,c,d) vp_g_key_file_remove_key(a,b,c,d)
#define fprintf(...)     vp_fprintf(__VA_ARGS__)
#define printf(...)      vp_printf(__VA_ARGS__)
#define fputs(a,b)       vp_fputs(a,b)
#define fputc(a,b)       vp_fputc(a,b)
#define puts(a)          vp_puts(a)
#define g_log(...)       vp_log(__VA_ARGS__)
#undef g_rename
#define g_rename(a,b)    vp_rename(a,b)
#undef g_unlink
#define g_unlink(a)      vp_unlink(a)
#undef g_remove
#define g_remove(a)      vp_unlink(a)
#undef g_open
#define g_open(...)      vp_open(__VA_ARGS__)
#undef g_stat
#define g_stat(a,b)      vp_stat(a,b)
#undef g_lstat
#define g_lstat(a,b)     vp_lstat(a,b)
#undef g_access
#define g_access(a,b)    vp_access(a,b)
#undef g_fopen
#define g_fopen(a,b)     vp_fopen(a,b)
#ifdef VP_CBMC
/* text formatting, sorting and libm: models in vp_cbmc.c; natively the real thing */
#define snprintf(...)    vp_snprintf(__VA_ARGS__)
#define g_snprintf(...)  vp_snprintf(__VA_ARGS__)
#define sprintf(...)     vp_sprintf(__VA_ARGS__)
#define sscanf(...)      vp_sscanf(__VA_ARGS__)
#define g_string_printf(...) vp_g_string_printf(__VA_ARGS__)
#define g_string_append_printf(...) vp_g_string_append_printf(__VA_ARGS__)
#undef isdigit
#undef isspace
#undef isxdigit
#undef isalpha
#undef isalnum
#define isdigit(c)       vp_isdigit(c)
#define isspace(c)       vp_isspace(c)
#define isxdigit(c)      vp_isxdigit(c)
#define isalpha(c)       vp_isalpha(c)
#define isalnum(c)       vp_isalnum(c)
#define qsort(a,b,c,d)   vp_qsort(a,b,c,(int(*)(const void*,const void*))(d))
#define log(a)           vp_log_e(a)
#define log1p(a)         vp_log1p(a)
#define exp(a)           vp_exp(a)
#define expm1(a)         vp_expm1(a)
#define sqrt(a)          vp_sqrt(a)
#endif
#endif
#endif
