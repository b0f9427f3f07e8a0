/* shim.c: Faults and signals at chosen points of the editor's own code.
 *
 * Linked with -Wl,--wrap=FUNC (see edv/build.py); the editor's sources are
 * compiled with -fsanitize-coverage=trace-pc, so that every edge of its
 * code is a point too. Controlled by environment:
 *
 *   ED_SHIM_LOG=FILE    append what happened
 *   ED_SHIM_BB=N:SIG    raise SIG at the Nth edge
 *   ED_SHIM_CALL=N:SIG  raise SIG inside the Nth library call
 *   ED_SHIM_THEN=K:SIG  raise SIG K edges after that
 *   ED_SHIM_FAIL=C:N[+] fail the Nth call (and all following) of class C
 *
 * Classes: m allocation, f stream I/O, o opening files, p processes,
 * r regular expressions, s everything else that may fail.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

int ed_verif_quiet = 0;

static int up, off, logfd = -1;
static long bb, calls, cls[128];
static long bb_at, call_at, fail_at;
static int bb_sig, call_sig, fail_class, fail_on;
static int trace;               /* For the debugging of tests. */
void __sanitizer_print_stack_trace (void) __attribute__ ((weak));
static int again, hit;          /* Signal once more: 1: at next command. */
static int fresh = 1;
static long then_at;            /* Edges left to second signal. */
static int then_sig;
static int in_heap;             /* 1: inside the allocator. */
static FILE *in_file;           /* Stream in use. */
static const char *in_func;
static int in_regex;            /* Inside the regular expression library. */
static int part;                /* Part of a line of input was read. */

ssize_t __real_write (int, const void *, size_t);

static void
say (const char *fmt, ...)
{
  char b[512];
  va_list ap;
  int n, e = errno;

  if (logfd < 0)
    return;
  va_start (ap, fmt);
  n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (n > (int) sizeof b - 1)
    n = sizeof b - 1;
  __real_write (logfd, b, n);
  errno = e;
}

static void
init (void)
{
  char *s;

  up = 1;
  ++off;
  if ((s = getenv ("ED_SHIM_LOG")))
    logfd = open (s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if ((s = getenv ("ED_SHIM_BB")))
    sscanf (s, "%ld:%d", &bb_at, &bb_sig);
  if ((s = getenv ("ED_SHIM_CALL")))
    sscanf (s, "%ld:%d", &call_at, &call_sig);
  if ((s = getenv ("ED_SHIM_AGAIN")))
    again = atoi (s);
  if ((s = getenv ("ED_SHIM_THEN")))
    sscanf (s, "%ld:%d", &then_at, &then_sig);
  trace = getenv ("ED_SHIM_TRACE") != NULL;
  if ((s = getenv ("ED_SHIM_FAIL")))
    {
      fail_class = *s;
      fail_at = atol (s + 2);
      fail_on = strchr (s, '+') != NULL;
    }
  --off;
}

static void
counts (const char *tag, const char *what)
{
  say ("%s %s %ld %ld m%ld f%ld o%ld p%ld r%ld s%ld %s\n", tag, what, bb,
       calls, cls['m'], cls['f'], cls['o'], cls['p'], cls['r'], cls['s'],
       part ? "part" : "line");
}

void
__sanitizer_cov_trace_pc (void)
{
  if (off || ed_verif_quiet)
    return;
  if (!up)
    init ();
  fresh = 1;
  ++bb;
  if (hit && then_sig && then_at-- <= 0)
    {
      int sig = then_sig;

      then_sig = 0;
      counts ("T", "edge");
      raise (sig);
    }
  if (bb == bb_at)
    {
      hit = 1;
      counts ("S", "edge");
      raise (bb_sig);
    }
}

/* point: Library call FUNC of CLASS; return nonzero if to be failed. */
static int
point (const char *func, int class)
{
  if (off || ed_verif_quiet)
    return 0;
  if (!up)
    init ();
  ++cls[class];
  if (++calls == call_at)
    {
      in_func = func;
      hit = 1;
      counts ("S", func);
      raise (call_sig);
    }
  if (class == fail_class
      && (cls[class] == fail_at || (fail_on && cls[class] > fail_at)))
    {
      if (cls[class] < fail_at + 8)
        counts ("F", func);
      if (!hit)
        hit = 1;
      if (trace && __sanitizer_print_stack_trace)
        ++off, __sanitizer_print_stack_trace (), --off;
      return 1;
    }
  return 0;
}

/* A signal handler that enters or abandons an interrupted allocator. */
#define HEAP(func)                                                           \
  int fail_;                                                                 \
  if (!off && in_heap)                                                       \
    {                                                                        \
      in_heap = 0;                                                           \
      say ("B heap %s while in %s\n", func, in_func);                        \
    }                                                                        \
  in_heap = !off && !ed_verif_quiet;                                         \
  fail_ = point (func, in_regex ? 'x' : 'm');                                                 \
  in_heap = 0

/* Likewise, of an interrupted stream. */
#define STREAM(func, fp)                                                     \
  int fail_;                                                                 \
  if (!off && in_file && in_file == (fp))                                    \
    {                                                                        \
      in_file = NULL;                                                        \
      say ("B stream %s while in %s\n", func, in_func);                      \
    }                                                                        \
  if (!off && !ed_verif_quiet && (fp) != stdin && (fp) != stdout             \
      && (fp) != stderr)                                                     \
    in_file = (fp);                                                          \
  fail_ = point (func, (fp) == stdin || (fp) == stdout || (fp) == stderr         \
                 ? 'x' : 'f');                                                 \
  in_file = NULL

static void
mark_error (FILE *fp)
{
  fp->_flags |= 0x20;           /* ferror (fp) */
}

/* Streams on scratch files keep their buffered data on failure. */
#define SCRATCH_MAX 1024
static char scratch[SCRATCH_MAX];

static void
lose (FILE *fp)
{
  int fd = fileno (fp);

  if (__fwriting (fp) && fd >= 0 && fd < SCRATCH_MAX && !scratch[fd])
    __fpurge (fp);
}

void *__real_malloc (size_t);
void *
__wrap_malloc (size_t n)
{
  HEAP ("malloc");
  if (fail_)
    return errno = ENOMEM, NULL;
  return __real_malloc (n);
}

void *__real_calloc (size_t, size_t);
void *
__wrap_calloc (size_t n, size_t k)
{
  HEAP ("calloc");
  if (fail_)
    return errno = ENOMEM, NULL;
  return __real_calloc (n, k);
}

void *__real_realloc (void *, size_t);
void *
__wrap_realloc (void *p, size_t n)
{
  HEAP ("realloc");
  if (fail_)
    return errno = ENOMEM, NULL;
  return __real_realloc (p, n);
}

void __real_free (void *);
void
__wrap_free (void *p)
{
  if (!off && !ed_verif_quiet && p)
    {
      if (in_heap)
        {
          in_heap = 0;
          say ("B heap free while in %s\n", in_func);
        }
      in_heap = 1;
      if (up && ++calls == call_at)
        {
          in_func = "free";
          hit = 1;
          counts ("S", "free");
          raise (call_sig);
        }
      in_heap = 0;
    }
  __real_free (p);
}

char *__real_strdup (const char *);
char *
__wrap_strdup (const char *s)
{
  HEAP ("strdup");
  if (fail_)
    return errno = ENOMEM, NULL;
  return __real_strdup (s);
}

FILE *__real_fopen (const char *, const char *);
FILE *
__wrap_fopen (const char *s, const char *m)
{
  if (point ("fopen", 'o'))
    return errno = EMFILE, NULL;
  return __real_fopen (s, m);
}

FILE *__real_freopen (const char *, const char *, FILE *);
FILE *
__wrap_freopen (const char *s, const char *m, FILE *fp)
{
  if (point ("freopen", 'o'))
    return errno = EMFILE, NULL;
  return __real_freopen (s, m, fp);
}

FILE *__real_fdopen (int, const char *);
FILE *
__wrap_fdopen (int fd, const char *m)
{
  if (point ("fdopen", 'o'))
    return errno = ENOMEM, NULL;
  return __real_fdopen (fd, m);
}

FILE *__real_popen (const char *, const char *);
FILE *
__wrap_popen (const char *s, const char *m)
{
  if (point ("popen", 'p'))
    return errno = EAGAIN, NULL;
  return __real_popen (s, m);
}

int __real_mkstemp (char *);
int
__wrap_mkstemp (char *s)
{
  int fd;

  if (point ("mkstemp", 'o'))
    return errno = ENOSPC, -1;
  if ((fd = __real_mkstemp (s)) >= 0 && fd < SCRATCH_MAX)
    scratch[fd] = 1;
  return fd;
}

int __real_open (const char *, int, ...);
int
__wrap_open (const char *s, int f, ...)
{
  va_list ap;
  int m;

  va_start (ap, f);
  m = f & (O_CREAT | O_TMPFILE) ? va_arg (ap, int) : 0;
  va_end (ap);
  if (point ("open", 'o'))
    return errno = EMFILE, -1;
  return __real_open (s, f, m);
}

int __real_fclose (FILE *);
int
__wrap_fclose (FILE *fp)
{
  int fd = fileno (fp);
  int r;
  STREAM ("fclose", fp);
  if (fail_)
    lose (fp);
  r = __real_fclose (fp);
  if (fd >= 0 && fd < SCRATCH_MAX)
    scratch[fd] = 0;
  return fail_ ? (errno = ENOSPC, EOF) : r;
}

int __real_pclose (FILE *);
int
__wrap_pclose (FILE *fp)
{
  STREAM ("pclose", fp);
  return __real_pclose (fp);
}

int __real_fflush (FILE *);
int
__wrap_fflush (FILE *fp)
{
  STREAM ("fflush", fp);
  if (fail_ && fp && fp != stdout && fp != stderr)
    {
      lose (fp);
      mark_error (fp);
      return errno = ENOSPC, EOF;
    }
  return __real_fflush (fp);
}

size_t __real_fwrite (const void *, size_t, size_t, FILE *);
size_t
__wrap_fwrite (const void *p, size_t n, size_t k, FILE *fp)
{
  STREAM ("fwrite", fp);
  if (fail_ && fp != stdout && fp != stderr)
    {
      size_t r = n * k ? __real_fwrite (p, 1, n * k / 2, fp) : 0;
      mark_error (fp);
      return errno = ENOSPC, n ? r / n : 0;
    }
  return __real_fwrite (p, n, k, fp);
}

size_t __real_fread (void *, size_t, size_t, FILE *);
size_t
__wrap_fread (void *p, size_t n, size_t k, FILE *fp)
{
  STREAM ("fread", fp);
  if (fail_ && fp != stdin)
    {
      mark_error (fp);
      return errno = EIO, 0;
    }
  return __real_fread (p, n, k, fp);
}

int __real_fseeko (FILE *, off_t, int);
int
__wrap_fseeko (FILE *fp, off_t o, int w)
{
  STREAM ("fseeko", fp);
  if (fail_ && fp != stdin)
    return errno = EIO, -1;
  return __real_fseeko (fp, o, w);
}

off_t __real_ftello (FILE *);
off_t
__wrap_ftello (FILE *fp)
{
  STREAM ("ftello", fp);
  if (fail_ && fp != stdin)
    return errno = EIO, -1;
  return __real_ftello (fp);
}

static int
get (const char *func, FILE *fp, int (*f) (FILE *))
{
  int c;

  STREAM (func, fp);
  if (fail_ && fp != stdin)
    {
      mark_error (fp);
      return errno = EIO, EOF;
    }
  if (fp != stdin)
    return f (fp);
  if (again && hit == 2 && !part)
    {
      hit = 3;
      counts ("A", func);
      raise (again);
    }
  part = (c = f (fp)) != '\n';
  return c;
}

int __real_getc (FILE *);
int
__wrap_getc (FILE *fp)
{
  return get ("getc", fp, __real_getc);
}

int __real_fgetc (FILE *);
int
__wrap_fgetc (FILE *fp)
{
  return get ("fgetc", fp, __real_fgetc);
}

int __real_putc (int, FILE *);
int
__wrap_putc (int c, FILE *fp)
{
  STREAM ("putc", fp);
  if (fail_ && fp != stdout && fp != stderr)
    {
      mark_error (fp);
      return errno = ENOSPC, EOF;
    }
  return __real_putc (c, fp);
}

int __real_fputs (const char *, FILE *);
int
__wrap_fputs (const char *s, FILE *fp)
{
  STREAM ("fputs", fp);
  if (fail_ && fp != stdout && fp != stderr)
    {
      mark_error (fp);
      return errno = ENOSPC, EOF;
    }
  return __real_fputs (s, fp);
}

int __real_ftruncate (int, off_t);
int
__wrap_ftruncate (int fd, off_t o)
{
  if (point ("ftruncate", 's'))
    return errno = EIO, -1;
  return __real_ftruncate (fd, o);
}

int __real_fstat (int, struct stat *);
int
__wrap_fstat (int fd, struct stat *p)
{
  if (point ("fstat", 's'))
    return errno = EIO, -1;
  return __real_fstat (fd, p);
}

int __real_flock (int, int);
int
__wrap_flock (int fd, int op)
{
  if (point ("flock", 's'))
    return errno = ENOLCK, -1;
  return __real_flock (fd, op);
}

int __real_dup2 (int, int);
int
__wrap_dup2 (int a, int b)
{
  if (point ("dup2", 'p'))
    return errno = EMFILE, -1;
  return __real_dup2 (a, b);
}

int __real_pipe (int *);
int
__wrap_pipe (int *p)
{
  if (point ("pipe", 'p'))
    return errno = EMFILE, -1;
  return __real_pipe (p);
}

pid_t __real_fork (void);
static pid_t
child (const char *func)
{
  pid_t p;

  if (point (func, 'p'))
    return errno = EAGAIN, -1;
  if ((p = __real_fork ()) == 0)
    ++off, logfd = -1;
  return p;
}

pid_t
__wrap_fork (void)
{
  return child ("fork");
}

/* (Running on the parent's stack is nothing the editor relies on.) */
pid_t
__wrap_vfork (void)
{
  return child ("vfork");
}

int __real_unlink (const char *);
int
__wrap_unlink (const char *s)
{
  point ("unlink", 'x');
  return __real_unlink (s);
}

int __real_glob (const char *, int, int (*) (const char *, int), glob_t *);
int
__wrap_glob (const char *s, int f, int (*e) (const char *, int), glob_t *g)
{
  if (point ("glob", 's'))
    return GLOB_NOSPACE;
  return __real_glob (s, f, e, g);
}

int __real_rpl_regexec (const void *, const char *, size_t, void *, int);
int
__wrap_rpl_regexec (const void *p, const char *s, size_t n, void *m, int f)
{
  int r;

  if (point ("regexec", 'r'))
    return 12;                  /* REG_ESPACE */
  ++in_regex;
  r = __real_rpl_regexec (p, s, n, m, f);
  --in_regex;
  return r;
}

const char *__real_rpl_re_compile_pattern (const char *, size_t, void *);
const char *
__wrap_rpl_re_compile_pattern (const char *s, size_t n, void *p)
{
  const char *r;

  if (point ("re_compile_pattern", 'r'))
    return "Memory exhausted";
  ++in_regex;
  r = __real_rpl_re_compile_pattern (s, n, p);
  --in_regex;
  return r;
}

/* State records are appended by write (2). */
ssize_t
__wrap_write (int fd, const void *p, size_t n)
{
  if (ed_verif_quiet && fresh && up && !off)
    {
      fresh = 0;
      counts ("R", "-");
      hit += hit == 1;
    }
  return __real_write (fd, p, n);
}
