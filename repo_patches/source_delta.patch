From 3ea86a995dae05b209d092615c66fd2f3927c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 01/82] hook: ED_VERIF state recorder in main loop

---
 src/main.c  |   3 +
 src/verif.h | 175 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 178 insertions(+)
 create mode 100644 src/verif.h

diff --git a/src/main.c b/src/main.c
index 6ca0d54..eaf82f5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -11,6 +11,7 @@ char *copyright =
 #endif  /* not lint */
 
 #include "ed.h"
+#include "verif.h"
 #include "argmax.h"
 #include "getopt.h"
 
@@ -336,6 +337,8 @@ top:
   /*  Main command loop. */
   for (;;)
     {
+      VERIF_STATE (status, ed);
+
       if (ed->exec->opt & PROMPT /* && !(ed->exec->opt & SCRIPTED) */)
         {
           fputs (ed->exec->prompt, stdout);
diff --git a/src/verif.h b/src/verif.h
new file mode 100644
index 0000000..a4f1c53
--- /dev/null
+++ b/src/verif.h
@@ -0,0 +1,175 @@
+/* verif.h: Passive state recorder, compiled only with -DED_VERIF.
+ *
+ * Before each top-level command (i.e., after the previous one), append
+ * a record of the editor state to the file named by environment
+ * variable ED_VERIF_TRACE. Nothing of the editor's state is changed,
+ * not even the buffering of its scratch file.
+ *
+ * SPDX-License-Identifier: BSD-2-Clause OR GPL-2.0-or-later OR MIT
+ */
+
+#ifndef ED_VERIF_H
+# define ED_VERIF_H
+
+# ifndef ED_VERIF
+#  define VERIF_STATE(status, ed) ((void) 0)
+# else
+#  include <fcntl.h>
+#  include <stdint.h>
+#  include <unistd.h>
+
+/* Defined by fault-injecting harnesses: no faults while nonzero. */
+extern int ed_verif_quiet __attribute__ ((weak));
+
+static struct
+{
+  int fd;                       /* 0: uninitialized, -1: disabled. */
+  int text;                     /* If set, record text of lines. */
+  int64_t seq;
+  size_t n;
+  char b[1 << 16];
+} verif;
+
+static void
+verif_flush (void)
+{
+  size_t k = 0;
+  ssize_t r;
+
+  while (k < verif.n)
+    {
+      if ((r = write (verif.fd, verif.b + k, verif.n - k)) <= 0)
+        break;
+      k += r;
+    }
+  verif.n = 0;
+}
+
+static void
+verif_put (const void *p, size_t n)
+{
+  const char *s = p;
+
+  for (; n; --n)
+    {
+      if (verif.n == sizeof verif.b)
+        verif_flush ();
+      verif.b[verif.n++] = *s++;
+    }
+}
+
+static void
+verif_int (int64_t v)
+{
+  verif_put (&v, sizeof v);
+}
+
+/* Record bytes of scratch file, including any not yet flushed. */
+static void
+verif_text (FILE *fp, off_t off, size_t len)
+{
+  char b[1 << 12];
+  off_t base = -1;
+  size_t n;
+  ssize_t r;
+
+#  ifdef __GLIBC__
+  if (fp->_IO_write_ptr > fp->_IO_write_base)
+    base = (lseek (fileno (fp), 0, SEEK_CUR)
+            + (fp->_IO_write_base - fp->_IO_read_end));
+#  endif
+  while (len)
+    {
+      n = len < sizeof b ? len : sizeof b;
+#  ifdef __GLIBC__
+      if (base >= 0 && off >= base)
+        {
+          if (off + (off_t) n > base + (fp->_IO_write_ptr - fp->_IO_write_base))
+            break;
+          verif_put (fp->_IO_write_base + (off - base), n);
+          off += n, len -= n;
+          continue;
+        }
+      if (base >= 0 && off + (off_t) n > base)
+        n = base - off;
+#  endif
+      if ((r = pread (fileno (fp), b, n, off)) <= 0)
+        break;
+      verif_put (b, r);
+      off += r, len -= r;
+    }
+
+  /* Text missing from scratch file. */
+  for (; len; --len)
+    verif_put ("\377", 1);
+}
+
+static void
+verif_state (int status, ed_buffer_t *ed)
+{
+  int saved_errno = errno;
+  char *s;
+  ed_line_node_t *head = ed->core->line_head;
+  ed_line_node_t *lp;
+  int64_t n = 0, addr;
+  int ok = 1;
+  int i;
+
+  if (!verif.fd)
+    {
+      if (!(s = getenv ("ED_VERIF_TRACE"))
+          || (verif.fd = open (s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC,
+                               0600)) <= 0)
+        verif.fd = -1;
+      verif.text = !(s = getenv ("ED_VERIF_TEXT")) || *s != '0';
+    }
+  if (verif.fd < 0)
+    return;
+  if (&ed_verif_quiet)
+    ++ed_verif_quiet;
+
+  /* Structure of line list. */
+  for (lp = head->q_forw; lp != head && n <= ed->state->lines;
+       lp = lp->q_forw, ++n)
+    if (lp->q_forw->q_back != lp || lp->q_back->q_forw != lp)
+      ok = 0;
+  if (lp != head || n != ed->state->lines || head->q_forw->q_back != head
+      || ed->state->dot < 0 || ed->state->dot > ed->state->lines)
+    ok = 0;
+
+  verif_put ("EDV1", 4);
+  verif_int (++verif.seq);
+  verif_int (status);
+  verif_int (ed->exec->status);
+  verif_int (ed->state->dot);
+  verif_int (ed->state->lines);
+  verif_int (ed->state->is_modified);
+  verif_int (ok);
+  for (i = 0; i < MARK_MAX; ++i)
+    {
+      addr = -1;
+      if (ok && ed->core->mark[i])
+        for (lp = head, n = 0; n <= ed->state->lines; lp = lp->q_forw, ++n)
+          if (lp == ed->core->mark[i])
+            {
+              addr = n;
+              break;
+            }
+      verif_int (addr);
+    }
+  verif_int (ok && verif.text ? ed->state->lines : -1);
+  if (ok && verif.text)
+    for (lp = head->q_forw; lp != head; lp = lp->q_forw)
+      {
+        verif_int (lp->len);
+        verif_text (ed->core->fp, lp->seek, lp->len);
+      }
+  verif_flush ();
+  if (&ed_verif_quiet)
+    --ed_verif_quiet;
+  errno = saved_errno;
+}
+
+#  define VERIF_STATE(status, ed) verif_state ((status), (ed))
+# endif  /* ED_VERIF */
+#endif  /* !ED_VERIF_H */
-- 
2.43.0


From dca7c6d239daa5fe9d0f80f17ca8bb1e2ee3e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/82] fix: keep regex alive while a repeated substitution may
 use it

---
 src/ed.h   |  3 ++-
 src/exec.c |  2 +-
 src/re.c   | 52 +++++++++++++++++++++++++++++++---------------------
 src/sub.c  |  6 +++++-
 4 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 83828b7..6cf43b3 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -985,10 +985,11 @@ void reset_global_queue (ed_buffer_t *);
 int reset_register_buffer (int, ed_buffer_t *);
 #endif
 
+void release_regex (regex_t *, ed_buffer_t *);
 void reset_undo_queue (ed_buffer_t *);
 int resubstitute (off_t *, off_t *, unsigned *, unsigned *, ed_buffer_t *);
 void save_substitute (regex_t *, unsigned, off_t, off_t, unsigned,
-                      struct ed_substitute *);
+                      ed_buffer_t *);
 #ifdef WANT_ED_MACRO
 int script_from_register  (ed_buffer_t *);
 #endif
diff --git a/src/exec.c b/src/exec.c
index 08d95eb..f02b1f9 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1154,7 +1154,7 @@ s_cmd (ed_buffer_t *ed)
   COMMAND_SUFFIX (sio_f, ed);
   if (!ed->exec->global)
     reset_undo_queue (ed);
-  save_substitute (lhs, s_f, s_nth, s_mod, sio_f, ed->exec->subst);
+  save_substitute (lhs, s_f, s_nth, s_mod, sio_f, ed);
   if ((status = substitute_lines (ed->exec->region->start,
                                   ed->exec->region->end,
                                   lhs, s_nth, s_mod, s_f, ed)) < 0)
diff --git a/src/re.c b/src/re.c
index 6ac2173..cc2944f 100644
--- a/src/re.c
+++ b/src/re.c
@@ -7,15 +7,32 @@
 
 #include "ed.h"
 
+/* Global declarations */
+static regex_t *search_re = NULL; /* search regex */
+static regex_t *subst_re = NULL;  /* substitution regex */
+
+
+/* release_regex: Free regex unless still available as search,
+   substitution or repeated-substitution pattern. */
+void
+release_regex (regex_t *re, ed_buffer_t *ed)
+{
+  if (re && re != search_re && re != subst_re && re != ed->exec->subst->lhs)
+    {
+      regfree (re);
+      free (re);
+    }
+}
+
+
 /* get_compiled_regex: Return pointer to compiled regex from command
    buffer. */
 regex_t *
 get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
 {
   static const char *compile_err = NULL;
-  static regex_t *re_search = NULL; /* search regex */
-  static regex_t *re_subst = NULL;  /* substitution regex */
   regex_t *re = NULL;
+  regex_t *re_prev = NULL;
 
 #ifndef HAVE_REG_SYNTAX_T
   static char re_err[BUFSIZ];   /* regex error message buffer */
@@ -132,15 +149,15 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
       switch (re_type)
         {
         case RE_SUBST:
-          re = ((dc != '\n' && re_search) || ed->exec->subst->r_f ? re_search
-                : re_subst);
-          if (!re_subst)
-            re_subst = re;
+          re = ((dc != '\n' && search_re) || ed->exec->subst->r_f ? search_re
+                : subst_re);
+          if (!subst_re)
+            subst_re = re;
           break;
         case RE_SEARCH:
-          re = re_search ? re_search : re_subst;
-          if (!re_search)
-            re_search = re;
+          re = search_re ? search_re : subst_re;
+          if (!search_re)
+            search_re = re;
           break;
         }
       if (!re)
@@ -215,22 +232,15 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   switch (re_type)
     {
     case RE_SUBST:
-      if (re_subst && re_subst != re_search)
-        {
-          regfree (re_subst);
-          free (re_subst);
-        }
-      re_subst = re;
+      re_prev = subst_re;
+      subst_re = re;
       break;
     case RE_SEARCH:
-      if (re_search && re_search != re_subst)
-        {
-          regfree (re_search);
-          free (re_search);
-        }
-      re_search = re;
+      re_prev = search_re;
+      search_re = re;
       break;
     }
+  release_regex (re_prev, ed);
   return re;
 }
 
diff --git a/src/sub.c b/src/sub.c
index 6298d7a..53fafca 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -345,9 +345,13 @@ init_substitute (regex_t **lhs_p, unsigned *s_f, off_t *s_nth,
 /* save_substitute: Save substitution parameters in ed state buffer. */
 void
 save_substitute (regex_t *lhs, unsigned s_f, off_t s_nth,
-                 off_t s_mod, unsigned sio_f, struct ed_substitute *es)
+                 off_t s_mod, unsigned sio_f, ed_buffer_t *ed)
 {
+  struct ed_substitute *es = ed->exec->subst;
+  regex_t *lhs_prev = es->lhs;
+
   es->lhs = lhs;
+  release_regex (lhs_prev, ed);
   es->s_nth = s_nth;
   es->s_mod = s_mod;
   es->s_f = s_f;
-- 
2.43.0


From a0e985d538cea0f51edcd32eb1c1a44dcc5925bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 03/82] fix: do not close open default file when written or
 read by name

---
 src/io.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..a65036e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -136,7 +136,8 @@ read_file (const char *fn, off_t after, off_t *addr,
     fprintf (stderr, (ed->exec->opt & VERBOSE
                       ? "%s: Exclusive lock not set\n" : ""), fn);
 
-  if (!is_default)
+  /* Handle of default file stays open. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
@@ -654,7 +655,9 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   *addr = n;
 
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+
+  /* Handle of default file stays open. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From dd2128f64b1df3315a57d83503de3fc55077a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 04/82] fix: reopen read-only default file for writing instead
 of failing with dangling handle

---
 src/io.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/io.c b/src/io.c
index a65036e..827769e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -618,15 +618,22 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
    * File-locking requires file write access, so this case should not
    * be reached.
    */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
+      if (file_already_open)
+        {
+          spl1 ();
+          fp = ed->file->handle;
+          ed->file->inode = 0;
+          ed->file->handle = NULL;
+          spl0 ();
+          if (fp && fclose (fp) == EOF)
+            {
+              fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+              ed->exec->err = _("File close error");
+              return ERR;
+            }
+        }
 #endif  /* WANT_FILE_LOCK */
       if (!(fp = fopen (fn, mode)))
         {
-- 
2.43.0


From fe4fc717e77d3c23cc104e28812fbc9f5f983a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 05/82] fix: close handle of previous default file

---
 src/buf.c | 5 -----
 src/io.c  | 4 ++++
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..3af12ae 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -196,15 +196,10 @@ init_ed_command (int init_glob, ed_buffer_t *ed)
 
   /* File info */
 #ifdef WANT_FILE_LOCK
-
-  /* XXX: GNU/Linux double-frees on fclose().  */
-#ifndef __linux__
   if (ed->file->handle)
 
     /* Assert: No writes since fopen(3). */
     (void) fclose (ed->file->handle);
-#endif  /* __linux__ */
-
   ed->file->handle = NULL;
   ed->file->inode = 0;
   ed->file->is_writable = 0;
diff --git a/src/io.c b/src/io.c
index 827769e..b38066a 100644
--- a/src/io.c
+++ b/src/io.c
@@ -104,6 +104,8 @@ read_file (const char *fn, off_t after, off_t *addr,
   if (!already_open && is_default)
     {
       spl1 ();
+      if (ed->file->handle)
+        (void) fclose (ed->file->handle);
       ed->file->inode = inode;
       ed->file->handle = fp;
       ed->file->is_writable = !read_only;
@@ -645,6 +647,8 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
       if (is_default)
         {
           spl1 ();
+          if (ed->file->handle)
+            (void) fclose (ed->file->handle);
           ed->file->inode = inode;
           ed->file->handle = fp;
           ed->file->is_writable = 1;
-- 
2.43.0


From 99850287c89d675c851a1c85d9078766976f2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 06/82] fix: report write error when buffered data cannot be
 flushed

---
 src/io.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index b38066a..4292841 100644
--- a/src/io.c
+++ b/src/io.c
@@ -755,8 +755,13 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
-
+  if (fflush (fp) == EOF || ferror (fp))
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
+      clearerr (fp);
+      return ERR;
+    }
   return 0;
 }
 
-- 
2.43.0


From 7c82aeaed9e5394d0e5b207d33ba1b0596a5ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 07/82] fix: survive shell command which closes its input early

---
 src/aux.c    |  3 +++
 src/io.c     | 10 ++++++++--
 src/signal.c | 10 ++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 187027f..4d91540 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -145,6 +145,9 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       goto err;
     case 0:
 
+      /* Reset signal for writing to shell. */
+      signal (SIGPIPE, SIG_DFL);
+
       /*
        * Close unused pipe ends, then open and write to shell
        * process's standard input.
diff --git a/src/io.c b/src/io.c
index 4292841..6b71797 100644
--- a/src/io.c
+++ b/src/io.c
@@ -170,7 +170,10 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+      pclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   /* Ignore "no child" error. */
@@ -697,7 +700,10 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       return ERR;
     }
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+      pclose (fp);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
diff --git a/src/signal.c b/src/signal.c
index 6929962..1f2638b 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -24,6 +24,7 @@ signal_t sighandler[NSIG];
 /* Static function declarations. */
 static void handle_hup (int);
 static void handle_int (int);
+static void handle_pipe (int);
 static void handle_winch (int);
 static signal_t reliable_signal (int, signal_t);
 
@@ -84,6 +85,14 @@ handle_int (int signo)
 }
 
 
+/* handle_pipe: Let write to closed pipe fail (EPIPE). Unlike SIG_IGN,
+   disposition is not inherited by shell commands. */
+static void
+handle_pipe (int signo)
+{
+}
+
+
 static void
 handle_winch (int signo)
 {
@@ -127,6 +136,7 @@ init_signal_handler (ed_buffer_t *ed)
       || reliable_signal (SIGHUP, signal_handler) == SIG_ERR
       || reliable_signal (SIGINT, signal_handler) == SIG_ERR
       || reliable_signal (SIGQUIT, SIG_IGN) == SIG_ERR
+      || reliable_signal (SIGPIPE, handle_pipe) == SIG_ERR
 #ifdef SIGWINCH
       || (isatty (0) && reliable_signal (SIGWINCH, signal_handler) == SIG_ERR)
 #endif
-- 
2.43.0


From 92a928885a773ddb292bee6a36aa76ae513ea9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 08/82] fix: keep NUL bytes in output of filter

---
 src/buf.c | 5 ++++-
 src/io.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 3af12ae..6b15806 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -669,7 +669,10 @@ append_text_node (ed_text_node_t *th, const char *tb, const size_t len)
 
   /* Allocate node to push onto text queue */
   if (!(tp = (ed_text_node_t *) malloc (ED_TEXT_NODE_T_SIZE)))
-    return NULL;
+    {
+      spl0 ();
+      return NULL;
+    }
   tp->text = (char *) tb;
   tp->text_i = len;
 
diff --git a/src/io.c b/src/io.c
index 6b71797..2656c5f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -318,8 +318,11 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      if ((_t = (char *) malloc (len)))                                       \
+        memcpy (_t, (s), (len));                                              \
+      if (!_t || !append_text_node ((th), _t, (len)))                         \
         {                                                                     \
+          free (_t);                                                          \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
           return ERR;                                                         \
-- 
2.43.0


From d78b426edaabba61798f71e8c32d2a54dee80030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 09/82] fix: keep current line valid after empty insert in
 empty buffer

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index f02b1f9..06d55c5 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -788,7 +788,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->state->lines, ed->exec->region->end);
   return ed->display->io_f;
 }
 
-- 
2.43.0


From 7d833c0766407708cf93850ed45087b2b19b66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 10/82] fix: refuse unset mark in empty buffer

---
 src/buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 6b15806..457ae1c 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -497,7 +497,7 @@ get_line_node_address (const ed_line_node_t *lp, off_t *addr, ed_buffer_t *ed)
   *addr = 0;
   while (cp != lp && (cp = cp->q_forw) != ed->core->line_head)
     ++*addr;
-  if (*addr && cp == ed->core->line_head)
+  if (cp != lp)
     {
       ed->exec->err = _("Address out of range");
       return ERR;
-- 
2.43.0


From b3dd90606d5cf7004b0ad3bf6ecb906c09d7e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 11/82] fix: mark buffer modified when undo differs from file
 written

---
 src/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 06d55c5..dcf8a8c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1469,6 +1469,10 @@ w_cmd (ed_buffer_t *ed)
         {
           ed->state->is_modified = 0;
 
+          /* Undo of last change differs from file just written. */
+          if (ed->core->undo_head->q_forw != ed->core->undo_head)
+            ed->state[1].is_modified = 1;
+
           /*
            * Per SUSv4, exit_status cannot be reset. We'll do it
            * anyhow ...
-- 
2.43.0


From 5fef2594dad31af34fb67c8516603d0174b74383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 12/82] fix: do not divide by zero when substitution frequency
 is zero

---
 src/sub.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index 53fafca..a47f060 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -486,7 +486,11 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 
   /* Last match-relative s_mod? */
   if (s_f & SMLR)
-    s_mod += n;
+    {
+      /* If frequency is zero, then nothing to do. */
+      if (!(s_mod += n))
+        return *len = 0;
+    }
   else if (!s_mod)
     s_mod = 1;
 
-- 
2.43.0


From f52c2effe9ef7373c79ca57dfdf5ccf0b357cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 13/82] fix: report overflow of address offset as out of range

---
 src/parse.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..7c289f0 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -10,6 +10,7 @@
 
 /* Static function declarations. */
 static char *character_class (const char *, ed_buffer_t *);
+static int add_offset (off_t *, off_t, ed_buffer_t *);
 static int check_address_bounds (off_t, ed_buffer_t *);
 static glob_t *expand_glob (char *, int, glob_t *, ed_buffer_t *);
 static char *is_valid_name (const char *, ed_buffer_t *);
@@ -169,6 +170,7 @@ int
 address_offset (off_t *addr, ed_buffer_t *ed)
 {
   off_t n = 1;
+  int status;
 
   for (;; n = 1)
     switch ((unsigned char) *ed->input)
@@ -184,18 +186,21 @@ address_offset (off_t *addr, ed_buffer_t *ed)
       case '8':
       case '9':
         STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if ((status = add_offset (addr, n, ed)) < 0)
+          return status;
         break;
       case '+':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if ((status = add_offset (addr, n, ed)) < 0)
+          return status;
         break;
       case '-':
       case '^':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr -= n;
+        if ((status = add_offset (addr, -n, ed)) < 0)
+          return status;
         break;
       case ' ':
       case '\t':
@@ -203,7 +208,8 @@ address_offset (off_t *addr, ed_buffer_t *ed)
         if (isdigit ((unsigned char) *ed->input))
           {
             STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-            *addr += n;
+            if ((status = add_offset (addr, n, ed)) < 0)
+              return status;
           }
         break;
       default:
@@ -213,6 +219,24 @@ address_offset (off_t *addr, ed_buffer_t *ed)
 }
 
 
+/* Limit of addresses with offset, so that the sum of any two cannot
+   overflow. */
+#define ADDRESS_MAX (OFF_T_MAX / 2)
+
+/* add_offset: Add offset to line address; return status. */
+static int
+add_offset (off_t *addr, off_t n, ed_buffer_t *ed)
+{
+  if (n > 0 ? *addr > ADDRESS_MAX - n : *addr < -ADDRESS_MAX - n)
+    {
+      ed->exec->err = _("Address out of range");
+      return ERR;
+    }
+  *addr += n;
+  return 0;
+}
+
+
 /* check_address_bounds: Verify that line address is legal with
    respect to current bounds. */
 static int
-- 
2.43.0


From a0f46c2215a329bdf7d038f5f8ec21d60a57c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 14/82] fix: allocate case-change stack in elements and pass
 unsigned chars to ctype

---
 src/sub.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index a47f060..b708b55 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -668,8 +668,7 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   int n;
   int change_once = 0;
 
-  if (cc_size < rhs_i / 2 + 1)
-    REALLOC_THROW (cc, cc_size, rhs_i /  2 + 1, ERR, ed);
+  REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof (int), ERR, ed);
   cc[cc_top++] = 0;
 
   for (; sub < rhs + rhs_i; ++sub)
@@ -681,9 +680,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
         while (j < k)
           {
             *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                                ?  toupper (*(boln + j++))
+                                ?  toupper ((unsigned char) *(boln + j++))
                                 : (cc[cc_top - 1] < 0 || change_once < 0)
-                                ? tolower (*(boln + j++))
+                                ? tolower ((unsigned char) *(boln + j++))
                                 : *(boln + j++));
             change_once = 0;
           }
@@ -701,9 +700,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
               while (j < k)
                 {
                   *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                                      ?  toupper (*(boln + j++))
+                                      ?  toupper ((unsigned char) *(boln + j++))
                                       : (cc[cc_top - 1] < 0 || change_once < 0)
-                                      ? tolower (*(boln + j++))
+                                      ? tolower ((unsigned char) *(boln + j++))
                                       : *(boln + j++));
                   change_once = 0;
                 }
@@ -728,9 +727,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
         default:
           REALLOC_THROW (rb, rb_size, *len + 1, ERR, ed);
           *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                              ?  toupper (*sub)
+                              ?  toupper ((unsigned char) *sub)
                               : (cc[cc_top - 1] < 0 || change_once < 0)
-                              ? tolower (*sub)
+                              ? tolower ((unsigned char) *sub)
                               : *sub);
           change_once = 0;
           break;
@@ -739,9 +738,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
       {
         REALLOC_THROW (rb, rb_size, *len + 1, ERR, ed);
         *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                            ?  toupper (*sub)
+                            ?  toupper ((unsigned char) *sub)
                             : (cc[cc_top - 1] < 0 || change_once < 0)
-                            ? tolower (*sub)
+                            ? tolower ((unsigned char) *sub)
                             : *sub);
         change_once = 0;
       }
-- 
2.43.0


From e38a6961d8d270507c21131d624780cf3d6abe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 15/82] fix: set error message when continuation line is
 missing

---
 src/io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 2656c5f..c8bc932 100644
--- a/src/io.c
+++ b/src/io.c
@@ -481,9 +481,13 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
       *(xl + *len - 1) = '\n';
 
       if (!(ed->input = get_stdin_line (&n, ed)))
+        {
+          if (feof (stdin))
+            ed->exec->err = _("End-of-file unexpected");
 
-        /* Propagate stream status - don't call clearerr(3). */
-        return NULL;
+          /* Propagate stream status - don't call clearerr(3). */
+          return NULL;
+        }
       if (*(ed->input + n - 1) != '\n')
         {
           ed->exec->err = _("End-of-file unexpected");
-- 
2.43.0


From 9896d8117dfca11596256a127d20b0de4ff1eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 16/82] fix: match repeatedly relative to line, past NUL and
 invalid UTF-8

---
 src/sub.c | 85 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 22 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index b708b55..2df5725 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -11,8 +11,11 @@
 /* Static function declarations. */
 static int apply_subst_template (const char *, const regmatch_t *,
                                  size_t, size_t *, ed_buffer_t *);
-static ssize_t count_matches (const regex_t *, const char *, int len,
+static size_t char_size (const char *, const char *, ed_buffer_t *);
+static ssize_t count_matches (const regex_t *, const char *, size_t len,
                              ed_buffer_t *);
+static int match_from (const regex_t *, const char *, size_t, size_t,
+                       regmatch_t *, int);
 static int substitute_matching (const regex_t *, const ed_line_node_t *,
                                 size_t *, off_t, off_t, unsigned,
                                 ed_buffer_t *);
@@ -445,6 +448,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
   static regmatch_t *rm = NULL;
   static size_t rm_size = 0;
 
+  char *boln;
   char *txt;
   char *eot;
   ssize_t n = 0;
@@ -498,21 +502,20 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
   if (ed->state->is_binary)
     NUL_TO_NEWLINE (txt, lp->len);
 #endif
-  for (*len = 0, eot = txt + lp->len, rm->rm_so = 0, rm->rm_eo = lp->len;
+  for (*len = 0, boln = txt, eot = txt + lp->len;
        (!changed || (s_f & GSUB))
-         && !regexec (re, txt, re->re_nsub + 1, rm, eflag);
-       txt += j, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
+         && !match_from (re, boln, txt - boln, lp->len, rm, eflag);
+       txt += j, eflag |= REG_NOTBOL)
     {
-      i = rm->rm_so, j = rm->rm_eo;
+      i = rm->rm_so - (txt - boln), j = rm->rm_eo - (txt - boln);
       nil_prev = nil_next, nil_next = !j;
 
       /* Infinite loop!! */
       if (matched_prev && nil_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
-          if (!ed->state->is_utf8 || (j = utf8_char_size (txt, eot - txt)) == 0)
-            j = 1;
+          j = char_size (txt, eot, ed);
           REALLOC_THROW (rb, rb_size, *len + j, ERR, ed);
 #ifndef REG_STARTEND
           if (ed->state->is_binary)
@@ -536,7 +539,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
           memcpy (rb + *len, txt, i);
           *len += i;
           if ((status =
-               apply_subst_template (txt, rm, re->re_nsub, len, ed)) < 0)
+               apply_subst_template (boln, rm, re->re_nsub, len, ed)) < 0)
             return status;
           matched_prev = 1;
           ++changed;
@@ -545,11 +548,10 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Not yet ... */
       else
         {
-          if (nil_next && !*txt)
+          if (nil_next && txt == eot)
             break;
-          if (!j && (!ed->state->is_utf8
-                     || (j = utf8_char_size (txt, eot - txt)) == 0))
-            j = 1;
+          if (!j)
+            j = char_size (txt, eot, ed);
           REALLOC_THROW (rb, rb_size, *len + j, ERR, ed);
 #ifndef REG_STARTEND
           if (ed->state->is_binary)
@@ -579,14 +581,53 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 }
 
 
+/* char_size: Return size of next character of text - one byte if not
+   UTF-8. */
+static size_t
+char_size (const char *txt, const char *eot, ed_buffer_t *ed)
+{
+  int n;
+
+  return ed->state->is_utf8 && (n = utf8_char_size (txt, eot - txt)) > 0 ? n : 1;
+}
+
+
+/* match_from: Match regular expression against line of given length
+   from given offset, such that matches are relative to beginning of
+   line; return status of regexec(3). */
+static int
+match_from (const regex_t *re, const char *boln, size_t off, size_t len,
+            regmatch_t *rm, int eflag)
+{
+#ifdef REG_STARTEND
+  rm->rm_so = off;
+  rm->rm_eo = len;
+  return regexec (re, boln, re->re_nsub + 1, rm, eflag);
+#else
+  size_t i;
+  int status;
+
+  if (!(status = regexec (re, boln + off, re->re_nsub + 1, rm, eflag)))
+    for (i = 0; i <= re->re_nsub; ++i)
+      if (rm[i].rm_so >= 0)
+        {
+          rm[i].rm_so += off;
+          rm[i].rm_eo += off;
+        }
+  return status;
+#endif
+}
+
+
 /* count_matches: Return count of matches in given line. */
 static ssize_t
-count_matches (const regex_t *re, const char *txt, int len,
+count_matches (const regex_t *re, const char *txt, size_t len,
                ed_buffer_t *ed)
 {
   static regmatch_t *rm = NULL;
   static size_t rm_size = 0;
 
+  const char *boln = txt;
   const char *eot;
   size_t off = 0;
   size_t nmatches = 0;
@@ -613,20 +654,20 @@ count_matches (const regex_t *re, const char *txt, int len,
   if (ed->state->is_binary)
     NUL_TO_NEWLINE (txt, len);
 #endif
-  for (eot = txt + len, rm->rm_so = 0, rm->rm_eo = len;
-       !regexec (re, txt, re->re_nsub + 1, rm, eflag);
-       txt += off, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
+  for (eot = txt + len;
+       !match_from (re, boln, txt - boln, len, rm, eflag);
+       txt += off, eflag |= REG_NOTBOL)
     {
-      off = rm->rm_eo;
+      off = rm->rm_eo - (txt - boln);
       nul_prev = nul_next;
       nul_next = !off;
 
       /* Infinite loop!! */
       if (matched_prev && nul_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
-          off = 1;
+          off = char_size (txt, eot, ed);
           matched_prev = 0;
         }
 
@@ -641,10 +682,10 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Not yet ... */
       else
         {
-          if (nul_next && !*txt)
+          if (nul_next && txt == eot)
             break;
           if (!off)
-            ++off;
+            off = char_size (txt, eot, ed);
           matched_prev = 0;
         }
     }
-- 
2.43.0


From e0a60969ae4891eaa6ef441be92c74bf5c3022e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 17/82] fix: display text which is not valid UTF-8 without
 reading past it

---
 src/page.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..d2e6a4d 100644
--- a/src/page.c
+++ b/src/page.c
@@ -15,6 +15,7 @@ static int display_frame_buffer (const ed_frame_buffer_t *, ed_buffer_t *);
 static ed_frame_node_t *dup_frame_node (const ed_frame_node_t *, ed_buffer_t *);
 static int fb_putc (int, ed_frame_buffer_t *, ed_buffer_t *);
 static int fb_putwc (char *, size_t, ed_frame_buffer_t *, ed_buffer_t *);
+static int char_size (const char *, size_t, ed_buffer_t *);
 static int init_frame_buffer (ed_frame_buffer_t *, ed_buffer_t *);
 static void init_frame_node (ed_frame_node_t *);
 static int put_frame_buffer_line (ed_line_node_t *, off_t,
@@ -479,7 +480,8 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
    : (*s) == '\r' ? -(c)                                                      \
    : (*s) == '\t' ? TAB_WIDTH - ((c) - ((c) / TAB_WIDTH) * TAB_WIDTH)         \
    : ((unsigned char) *s) < '\040' ? 0                                        \
-   : ed->state->is_utf8 ? utf8_char_display_width (s, len)                    \
+   : ed->state->is_utf8 && utf8_char_size (s, len) > 0                        \
+   ? utf8_char_display_width (s, len)                                         \
    : 1)
 
 /* FB_PUTS: Add string, s, to frame buffer. */
@@ -506,6 +508,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   off_t n;
   char line_no[OFF_T_LEN + TAB_WIDTH + 1];
   char *cp, *s;
+  char *eot;
   size_t col = 0;
   size_t len;
   unsigned int sgr_len = 0;     /* Length of ANSI SGR sequence. */
@@ -568,6 +571,8 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   if (!(s = get_buffer_line (lp, ed)))
     return ERR;
 
+  eot = s + lp->len;
+
   if (ed->display->io_f & OFFB)
     s += fb->row[fb->row_i]->offset;
 
@@ -578,7 +583,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
      * XXX: For multibyte streams, adjust fb->rem_chars upward.
      * See test zb7.tso.
      */
-    while (utf8_strlen (s, fb->rem_chars) == ERR)
+    while (fb->rem_chars < eot - s && utf8_strlen (s, fb->rem_chars) == ERR)
       ++fb->rem_chars;
 
   /* Offset of paged line if form feed (\f) is split across pages. */
@@ -667,7 +672,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           col = 0;
         }
 
-      csize = ed->state->is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1;
+      csize = char_size (s, fb->rem_chars, ed);
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
@@ -700,15 +705,23 @@ fb_putc (int c, ed_frame_buffer_t *fb, ed_buffer_t *ed)
 }
 
 
+/* char_size: Return size of next character of text - one byte if not
+   UTF-8. */
+static int
+char_size (const char *s, size_t len, ed_buffer_t *ed)
+{
+  int n;
+
+  return ed->state->is_utf8 && (n = utf8_char_size (s, len)) > 0 ? n : 1;
+}
+
+
 /* fb_putwc: Add a wide character to the frame buffer. */
 static int
 fb_putwc (char *s, size_t len, ed_frame_buffer_t *fb, ed_buffer_t *ed)
 {
   ed_frame_node_t *rp = fb->row[fb->row_i];
-  size_t i;
-
-  if ((i = utf8_char_size (s, len)) == 0)
-    return ERR;
+  size_t i = char_size (s, len, ed);
 
   REALLOC_THROW (rp->text, rp->text_size, rp->text_i + i, ERR, ed);
 
-- 
2.43.0


From 9a319adb31d09e5ef750942bce811a2e94436ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 18/82] fix: write newline of lines other than last in binary
 buffer

---
 src/io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index c8bc932..beff2a8 100644
--- a/src/io.c
+++ b/src/io.c
@@ -743,7 +743,10 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
       if (!(s = get_buffer_line (lp, ed)))
         return ERR;
       len = lp->len;
-      append_newline = !(n == 1 && ed->state->is_binary
+
+      /* Only last line of buffer can have had newline appended. */
+      append_newline = !(lp->q_forw == ed->core->line_head
+                         && ed->state->is_binary
                          && ed->state->newline_appended);
       if (*size >= OFF_T_MAX - len - append_newline)
         {
-- 
2.43.0


From c5094489573b2d4cffe181d9378d371690f51e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 19/82] fix: reject command characters beyond end of command
 table

---
 src/exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index dcf8a8c..af0fb30 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -376,7 +376,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
+      return (ED_KEY_FIRST <= c && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[c - ED_KEY_FIRST](ed)
               : invalid_cmd (ed));
     }
 }
-- 
2.43.0


From b07c7f0bde6d116286aef51c8355a69913834c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 20/82] fix: reset global flag before each command of macro

---
 src/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index af0fb30..b259ee4 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -571,6 +571,7 @@ static int
 exec_macro (ed_buffer_t *ed)
 {
   size_t len;
+  int global = ed->exec->global;
   int status = 0;
 
   /* case '@': */
@@ -609,6 +610,9 @@ exec_macro (ed_buffer_t *ed)
           break;
         }
 
+      /* As in main command loop, `global' flag of previous command is void. */
+      ed->exec->global = global;
+
       if ((status = address_range (ed)) < 0
           || (status = exec_command (ed)) < 0
           || ((ed->display->io_f = status) > 0
-- 
2.43.0


From 8a19c6fc14f4555cc2340e6a9ee13b0939dd6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 21/82] fix: do not encrypt registers, macros and filters with
 the file key

---
 src/aux.c |  2 +-
 src/ed.h  |  7 ++++---
 src/io.c  | 53 +++++++++++++++++++++++++++++------------------------
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 4d91540..f4370c4 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -155,7 +155,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       if (close (ip[0]) < 0 || close (op[0]) < 0
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs
-              && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
+              && (status = write_stream (ipp, lp, n, &size, 0, ed)) < 0)
           || fclose (ipp) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
diff --git a/src/ed.h b/src/ed.h
index 6cf43b3..2d2c6bf 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -921,8 +921,8 @@ int get_line_node_address (const ed_line_node_t *, off_t *, ed_buffer_t *);
 int get_marked_node_address (int, off_t *, ed_buffer_t *);
 int get_matching_node_address (const regex_t *, int, off_t *, ed_buffer_t *);
 size_t get_path_max (const char *);
-#define get_stdin_line(len, ed) get_stream_line (stdin, len, ed)
-char *get_stream_line (FILE *, size_t *, ed_buffer_t *);
+#define get_stdin_line(len, ed) get_stream_line (stdin, len, 0, ed)
+char *get_stream_line (FILE *, size_t *, int, ed_buffer_t *);
 
 #ifdef WANT_ED_ENCRYPTION
 void init_des_cipher (void);
@@ -1027,4 +1027,5 @@ int utf8_strlen (const char *, size_t);
 int write_file (const char *, int, off_t, off_t, off_t *, off_t *,
                 const char *, ed_buffer_t *);
 int write_pipe (const char *, off_t, off_t, off_t *, off_t *, ed_buffer_t *);
-int write_stream (FILE *, ed_line_node_t *, off_t, off_t *, ed_buffer_t *);
+int write_stream (FILE *, ed_line_node_t *, off_t, off_t *, int,
+                  ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index beff2a8..0d94111 100644
--- a/src/io.c
+++ b/src/io.c
@@ -26,8 +26,8 @@
 #endif  /* HAVE_FCNTL_H */
 
 /* Static function declarations. */
-static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
-static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
+static int put_stream_line (FILE *, const char *, size_t, int, ed_buffer_t *);
+static int read_stream (FILE *, off_t, off_t *, int, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
 
 
@@ -123,7 +123,7 @@ read_file (const char *fn, off_t after, off_t *addr,
 #endif  /* HAVE_FILE_LOCK */
 
 
-  if ((status = read_stream (fp, after, size, ed)) < 0)
+  if ((status = read_stream (fp, after, size, ed->exec->have_key, ed)) < 0)
     return status;
   *addr = ed->state->dot - after;
 
@@ -169,7 +169,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       ed->exec->err = _("File open error");
       return ERR;
     }
-  if ((status = read_stream (fp, after, size, ed)) < 0)
+  if ((status = read_stream (fp, after, size, ed->exec->have_key, ed)) < 0)
     {
       pclose (fp);
       return status;
@@ -202,10 +202,11 @@ read_pipe (const char *fn, off_t after, off_t *addr,
 
 /*
  * read_stream: Read a stream into the editor buffer after the given
- *   address. Parameter *size is set to bytes read.
+ *   address. Parameter *size is set to bytes read. If `cipher' is
+ *   set, the stream is decrypted.
  */
 static int
-read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
+read_stream (FILE *fp, off_t after, off_t *size, int cipher, ed_buffer_t *ed)
 {
   ed_line_node_t *lp = get_line_node (after, ed);
   ed_undo_node_t *up = NULL;
@@ -222,11 +223,11 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   ed->state->newline_missing = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (cipher)
     init_des_cipher ();
 #endif
 
-  for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
+  for (*size = 0; (tb = get_stream_line (fp, &len, cipher, ed)); *size += len)
     PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot);
   if (feof (fp))
     {
@@ -303,7 +304,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
     fprintf (stderr, _("Newline appended\n"));
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (cipher)
     if (*size)
       *size += 8 - *size % 8;     /* Adjust for DES padding. */
 #endif
@@ -354,7 +355,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   init_text_deque (&th);
 
   /* Read stream into memory to avoid reentrant calls to buffer file I/O. */
-  for (*size = 0; (s = get_stream_line (fp, &len, ed)); *size += len)
+  for (*size = 0; (s = get_stream_line (fp, &len, 0, ed)); *size += len)
     APPEND_TEXT_NODE (&th, s, len, ed);
   if (feof (fp))
     {
@@ -507,10 +508,10 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
 
 /*
  * get_stream_line: Read a line of text from a stream. Return line
- *   length.
+ *   length. If `cipher' is set, the stream is decrypted.
  */
 char *
-get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
+get_stream_line (FILE *fp, size_t *len, int cipher, ed_buffer_t *ed)
 {
   static char *tb = NULL;       /* text buffer */
   static size_t tb_size = 0;    /* buffer size */
@@ -530,7 +531,7 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
 
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; (c = (ed->exec->have_key && fp != stdin ? get_des_char (fp, ed)
+  for (; (c = (cipher ? get_des_char (fp, ed)
                : getc (fp))) != EOF && c != '\n'; ++*len)
 #else
   for (; (c = getc (fp)) != EOF && c != '\n'; ++*len)
@@ -669,7 +670,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
                           ? _("%s: File already locked\n") : ""), fn);
     }
 #endif  /* WANT_FILE_LOCK */
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
+  if ((status = write_stream (fp, lp, n, size, ed->exec->have_key, ed)) < 0)
     return status;
 
   /* Allow writing an empty buffer. */
@@ -706,7 +707,7 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       ed->exec->err = _("File open error");
       return ERR;
     }
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
+  if ((status = write_stream (fp, lp, n, size, ed->exec->have_key, ed)) < 0)
     {
       pclose (fp);
       return status;
@@ -722,10 +723,13 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
 }
 
 
-/* write_stream: Write a range of lines to a stream; return status. */
+/*
+ * write_stream: Write a range of lines to a stream; return status. If
+ *   `cipher' is set, the stream is encrypted.
+ */
 int
 write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
-              off_t *size, ed_buffer_t *ed)
+              off_t *size, int cipher, ed_buffer_t *ed)
 {
   size_t len;
   char *s;
@@ -733,7 +737,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
   int status = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (cipher)
     init_des_cipher ();
 #endif
 
@@ -755,7 +759,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
         }
       if (append_newline)
         *(s + len++) = '\n';
-      if ((status = put_stream_line (fp, s, len, ed)) < 0)
+      if ((status = put_stream_line (fp, s, len, cipher, ed)) < 0)
         {
           clearerr (fp);
           return status;
@@ -764,7 +768,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
     }
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (cipher)
     {
       flush_des_file (fp);
       if (*size)
@@ -784,11 +788,12 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 
 /* put_stream_line: Write a line of text to a stream; return status. */
 static int
-put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
+put_stream_line (FILE *fp, const char *s, size_t len, int cipher,
+                 ed_buffer_t *ed)
 {
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; len && (ed->exec->have_key ? put_des_char ((unsigned) *s, fp)
+  for (; len && (cipher ? put_des_char ((unsigned) *s, fp)
                  : putc ((unsigned) *s, fp)) != EOF; --len, ++s)
 #else
   for (; len && putc ((unsigned) *s, fp) != EOF; --len, ++s)
@@ -973,7 +978,7 @@ append_from_register (off_t addr, ed_buffer_t *ed)
       return ERR;
     }
 
-  if ((status = read_stream (read_fp, addr, &size, ed)) < 0)
+  if ((status = read_stream (read_fp, addr, &size, 0, ed)) < 0)
     return status;
   if (size)
     ed->state->is_modified = 1;
@@ -1023,7 +1028,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
   else if ((status = reset_register_buffer (write_idx, ed) < 0))
     return status;
 
-  if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
+  if ((status = write_stream (write_fp, lp, n, &size, 0, ed)) < 0)
     return status;
   return 0;
 }
-- 
2.43.0


From 6c486a35d209db9ce1fb0181b69a2a5992a9768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 22/82] fix: derive key from password alike after a hexadecimal
 or binary key

---
 src/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cbc.c b/src/cbc.c
index 655c80f..c173e63 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -233,6 +233,7 @@ expand_des_key (unsigned char *obuf, char *kbuf, ed_buffer_t *ed)
           ed->exec->err = _("Invalid key");
           return ERR;
         }
+      MEMZERO (obuf, 8);
       for (i = 0; i < 8; i++)
         for (j = 0; j < 8; j++)
           obuf[i] = (obuf[i] << 1) | nbuf[8 * i + j];
@@ -268,6 +269,7 @@ expand_des_key (unsigned char *obuf, char *kbuf, ed_buffer_t *ed)
     }
 
   /* 8-byte ASCII key. */
+  pflag = 0;
   (void) strncpy ((char *) obuf, kbuf, 8);
   return 0;
 }
-- 
2.43.0


From ee528682ec8fb7f16b8e5162e01a8e42537947f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 23/82] fix: report failure to reopen the editor buffer

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index b259ee4..c355d2f 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -517,7 +517,7 @@ E_cmd (ed_buffer_t *ed)
     }
   reset_undo_queue (ed);
   reset_global_queue (ed);
-  if (reopen_ed_buffer (ed) < 0)
+  if ((status = reopen_ed_buffer (ed)) < 0)
     {
       spl0 ();
       return status;
-- 
2.43.0


From d70cf8d9e9f4d5439c03aa17d9fbc6377ac27519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 24/82] fix: report failure to reset a register

---
 src/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0d94111..40a32a2 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1025,7 +1025,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = write_stream (write_fp, lp, n, &size, 0, ed)) < 0)
@@ -1094,7 +1094,7 @@ inter_register_copy (int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-- 
2.43.0


From 6d09adee447198f6335f3eaee86d1b691a16342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 25/82] fix: do not lose track of buffer file offset when
 reading or writing it fails

---
 src/buf.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 457ae1c..f0a4a3a 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -345,6 +345,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
       ed->core->offset = lp->seek;
       if (FSEEK (ed->core->fp, ed->core->offset, SEEK_SET) == -1)
         {
+          ed->core->offset = -1;
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
           return NULL;
@@ -355,6 +356,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
   REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
+      ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
       return NULL;
@@ -399,15 +401,26 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
       ed->exec->err = _("Buffer full");
       return NULL;
     }
-  if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
+
+  /*
+   * Flush text before referencing it from in-core buffer, otherwise
+   * lines already accepted are lost if write fails later.
+   */
+  if (fwrite (t, sizeof (char), len, ed->core->fp) != len
+      || fflush (ed->core->fp) == EOF)
     {
+      /* File offset is unknown, so force seek. */
       ed->core->offset = -1;
+      ed->core->seek_on_write = 1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer write error");
       return NULL;
     }
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
-    return NULL;
+    {
+      ed->core->seek_on_write = 1;
+      return NULL;
+    }
 
   ++ed->state->dot;
   ed->core->offset += len;      /* Update current offset in buffer file. */
-- 
2.43.0


From f8873d19bb0a30d41ba486f28f859e0ac783c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 26/82] fix: disable undo when it cannot be recorded

---
 src/undo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/undo.c b/src/undo.c
index cda513c..b4393be 100644
--- a/src/undo.c
+++ b/src/undo.c
@@ -24,6 +24,10 @@ append_undo_node (int type, off_t from, off_t to, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Memory exhausted");
+
+      /* Undo queue is incomplete, so disable undo. */
+      reset_undo_queue (ed);
+      init_ed_state (-1, &ed->state[1]);
       spl0 ();
       return NULL;
     }
-- 
2.43.0


From deadde2210a9b5f8cc11be0e24af135e3f413cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 27/82] fix: continue with rest of global command list after
 macro

---
 src/exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index c355d2f..a77aad8 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -570,6 +570,7 @@ E_cmd (ed_buffer_t *ed)
 static int
 exec_macro (ed_buffer_t *ed)
 {
+  char *input = NULL;
   size_t len;
   int global = ed->exec->global;
   int status = 0;
@@ -588,6 +589,9 @@ exec_macro (ed_buffer_t *ed)
       return ERR;
     }
 
+  /* Rest of global command list, if any. */
+  input = ed->input + 1;
+
   if ((status = script_from_register (ed)) < 0 || !ed->exec->fp)
     goto err;
 
@@ -621,6 +625,10 @@ exec_macro (ed_buffer_t *ed)
         break;
     }
 
+  /* Continue with rest of global command list, if any. */
+  if (global)
+    ed->input = input;
+
  err:
   /* Pop stack frame, or unwind on error. */
   return (status < 0 && status != EOF ? unwind_stack_frame (status, ed)
-- 
2.43.0


From b05d126dab59df925b66e4eba040d4232fd14c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 28/82] fix: list every byte of multibyte characters

---
 src/page.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/page.c b/src/page.c
index d2e6a4d..918142d 100644
--- a/src/page.c
+++ b/src/page.c
@@ -648,7 +648,8 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
         }
 
       /* Convert fb->rem_chars to units of wide chars. */
-      len = ed->state->is_utf8 ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars;
+      len = (ed->state->is_utf8 && !(ed->display->io_f & LIST)
+             ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars);
 
       /*
        * When listing text -- i.e., ed->display->io_f & LIST --
@@ -672,7 +673,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           col = 0;
         }
 
-      csize = char_size (s, fb->rem_chars, ed);
+
+      /* Each byte of a multibyte char is listed as an octal escape. */
+      csize = ed->display->io_f & LIST ? 1 : char_size (s, fb->rem_chars, ed);
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
-- 
2.43.0


From de1c0d30488568b17e47eace6ecc1e9c7e2b5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 29/82] fix: remove from global queue only lines which are
 deleted or moved

---
 src/glbl.c | 63 ++++++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index b5cdac5..690b45b 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -206,50 +206,47 @@ next_global_node (ed_buffer_t *ed)
 void
 reset_global_queue (ed_buffer_t *ed)
 {
+  ed_global_node_t *gp, *next;
+
   /* Assert: spl1 () */
 
-  delete_global_nodes (ed->core->global_head->q_forw->lp,
-                       ed->core->global_head->lp, ed);
+  for (gp = ed->core->global_head->q_forw; gp != ed->core->global_head;
+       gp = next)
+    {
+      next = gp->q_forw;
+      UNLINK_NODE (gp);
+      free (gp);
+    }
 }
 
 
-/* SEEK_GLOBAL_LINE: Seek global line node between min and max. */
-#define SEEK_GLOBAL_LINE(global, head, min, max)                              \
-  do                                                                          \
-    {                                                                         \
-      global = head;                                                          \
-      while (global->lp != min                                                \
-             && (global = global->q_forw) != ed->core->global_head)           \
-        ;                                                                     \
-      if (global->lp == min || min == max)                                    \
-        break;                                                                \
-      min = min->q_forw;                                                      \
-    }                                                                         \
-  while (1)
-
-
 /* delete_global_nodes: Delete range of global nodes, excluding end. */
 void
 delete_global_nodes (const ed_line_node_t *begin, const ed_line_node_t *end,
                      ed_buffer_t *ed)
 {
-  ed_line_node_t *first = (ed_line_node_t *) begin;
-  ed_line_node_t *last = (ed_line_node_t *) end;
-  ed_global_node_t *from, *to, *next;
-
-  /* Assert: get_line_node_address (first) <= get_line_node_address (last) */
-
-  SEEK_GLOBAL_LINE (from, ed->core->global_head, first, last);
-
-  if (first != last)
-    SEEK_GLOBAL_LINE (to, from->q_forw, last, ed->core->line_head);
+  const ed_line_node_t *lp;
+  ed_global_node_t *head = ed->core->global_head;
+  ed_global_node_t *gp = head->q_forw;
+  ed_global_node_t *first, *next;
 
-  /* Assert: spl1 () */
-
-  for (; from != ed->core->global_head && from->lp != last; from = next)
+  /*
+   * Assert: spl1 ()
+   *
+   * After lines are moved, the order of global queue may differ from
+   * that of buffer, so look up each line, beginning where previous
+   * one was found.
+   */
+  for (lp = begin; lp != end && head->q_forw != head; lp = lp->q_forw)
     {
-      next = from->q_forw;
-      UNLINK_NODE (from);
-      free (from);
+      for (first = gp; gp->lp != lp && (gp = gp->q_forw) != first;)
+        ;
+      if (gp != head && gp->lp == lp)
+        {
+          next = gp->q_forw;
+          UNLINK_NODE (gp);
+          free (gp);
+          gp = next;
+        }
     }
 }
-- 
2.43.0


From 6722ffea2a8af341eb9a74168bdd152047b11caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 30/82] fix: remember empty replacement of newline-delimited
 substitution

---
 src/sub.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index 2df5725..9616a54 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -207,7 +207,8 @@ substitution_rhs (off_t *s_nth, off_t *s_mod, unsigned *s_f,
   /* Newline-delimited pattern. */
   if ((dc = *ed->input) == '\n')
     {
-      rhs_i = 0;
+      REALLOC_THROW (rhs, rhs_size, 1, ERR, ed);
+      *(rhs + (rhs_i = 0)) = '\0';
       *sio_f = PRNT;
       return 0;
     }
-- 
2.43.0


From 293c175c91609b534f441e5ced9e8fc019d31786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 31/82] fix: do not compute offset of missing substitution
 template

---
 src/sub.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index 9616a54..d8664f5 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -713,7 +713,8 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof (int), ERR, ed);
   cc[cc_top++] = 0;
 
-  for (; sub < rhs + rhs_i; ++sub)
+  /* Template is empty if there is no previous substitution. */
+  for (; rhs_i && sub < rhs + rhs_i; ++sub)
     if (*sub == '&')
       {
         j = rm->rm_so;
-- 
2.43.0


From 8a9bb5253778e2be70303e8f7c78af69470f6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 32/82] fix: do not share offset of buffer file with process
 writing to filter

---
 src/aux.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aux.c b/src/aux.c
index f4370c4..14eee06 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -148,6 +148,17 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       /* Reset signal for writing to shell. */
       signal (SIGPIPE, SIG_DFL);
 
+      /*
+       * Offset of open buffer file is shared with parent, which appends
+       * to it concurrently, so read it via handle of our own.
+       */
+      ed->core->offset = -1;
+      if (!(ed->core->fp = fopen (ed->core->pathname, "r")))
+        {
+          fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
+          _exit (127);
+        }
+
       /*
        * Close unused pipe ends, then open and write to shell
        * process's standard input.
-- 
2.43.0


From c1c465ca51cd7c32e9bbff1cf7b0b95fe3412f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 33/82] fix: initialize pid of process writing to filter

---
 src/aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aux.c b/src/aux.c
index 14eee06..a405bed 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -58,7 +58,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   FILE *ipp, *opp;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
-  pid_t shell_pid, write_pid;
+  pid_t shell_pid, write_pid = -1;
   off_t size = 0;
   int ip[2], op[2];
   int status = 0;
-- 
2.43.0


From b75973d1f7be1c30c6dc92b746b23a369352d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 34/82] fix: do not count remaining characters of line for each
 one displayed

---
 src/page.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index 918142d..6842b2e 100644
--- a/src/page.c
+++ b/src/page.c
@@ -647,8 +647,12 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
             col += 4;
         }
 
-      /* Convert fb->rem_chars to units of wide chars. */
+      /*
+       * Convert fb->rem_chars to units of wide chars - unless there
+       * are more than two anyway, which is all that matters.
+       */
       len = (ed->state->is_utf8 && !(ed->display->io_f & LIST)
+             && fb->rem_chars <= 2 * 4
              ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars);
 
       /*
-- 
2.43.0


From 9eaac56c90ce42a1ddc91a246bb0f27a0539b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 35/82] fix: refuse command of interactive global without final
 newline

---
 src/glbl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glbl.c b/src/glbl.c
index 690b45b..79d00a3 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -106,7 +106,14 @@ exec_global (ed_buffer_t *ed)
           if ((status = display_lines (ed->state->dot,
                                        ed->state->dot, ed)) < 0)
             return status;
-          else if (!(ed->input = get_stdin_line (&len, ed))
+          else if ((ed->input = get_stdin_line (&len, ed))
+                   && *(ed->input + len - 1) != '\n')
+            {
+              ed->exec->err = _("End-of-file unexpected");
+              clearerr (stdin);
+              return ERR;
+            }
+          else if (!ed->input
                    || !(ed->input = get_extended_line (&len, 0, 1, ed)))
             {
               /* For an interactive global command, permit EOF to cancel. */
-- 
2.43.0


From 15eaf8851a58834c0c0648f84eedab52f67d81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 36/82] fix: do not write past argument vector made from ED,
 nor to NULL if ED is blank

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index eaf82f5..d86cf29 100644
--- a/src/main.c
+++ b/src/main.c
@@ -683,10 +683,13 @@ getenv_init_argv (const char *s, int *argc, ed_buffer_t *ed)
               ed->exec->err = _("Argument list full");
               return NULL;
             }
+          /* Allow for argv[0] and terminating NULL. */
           REALLOC_THROW (argv, argv_size,
-                         (*argc + 2) * sizeof (char *), NULL, ed);
+                         (*argc + 3) * sizeof (char *), NULL, ed);
           *((char **) argv + ++*argc) = v;
         }
+      if (!*argc)
+        return NULL;
       *((char **) argv + ++*argc) = NULL;
       *((char **) argv) = (char *) s;
     }
-- 
2.43.0


From 3d84beddd1b4bd647b1854fa373208ce597b5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 37/82] fix: keep default window size when LINES or COLUMNS is
 not acceptable

---
 src/buf.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index f0a4a3a..51434b1 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -60,6 +60,12 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
   INIT_DEQUE (ed->core->global_head);
   INIT_DEQUE (ed->core->undo_head);
 
+  /* !SIGWINCH */
+  if (!ed->display->ws_row)
+    ed->display->ws_row = WS_ROW;
+  if (!ed->display->ws_col)
+    ed->display->ws_col = WS_COL;
+
   /* Sanity check values of environment vars */
   if ((ls = getenv ("LINES")))
     {
@@ -68,10 +74,6 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
         ed->display->ws_row = l;
     }
 
-  /* !SIGWINCH */
-  else if (!ed->display->ws_row)
-    ed->display->ws_row = WS_ROW;
-
   if ((cs = getenv ("COLUMNS")))
     {
       STRTOL_THROW (l, cs, NULL, ERR);
@@ -79,10 +81,6 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
         ed->display->ws_col = l;
     }
 
-  /* !SIGWINCH */
-  else if (!ed->display->ws_col)
-    ed->display->ws_col = WS_COL;
-
   /* Assign a default command prompt. */
   if (!ed->exec->prompt)
     ed->exec->prompt = DEFAULT_PROMPT;
-- 
2.43.0


From aa4fa409a11066dddc58a1ea45f6f72b1bb0aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 38/82] fix: do not print missing name of first file argument

---
 src/exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index a77aad8..991088c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1112,7 +1112,8 @@ r_cmd (ed_buffer_t *ed)
     }
 
   /* If multiple file args on command line, print first one. */
-  if (ed->exec->opt & PRINT_FIRST_FILE && ed->file->list->gl_pathc > 1)
+  if (ed->exec->opt & PRINT_FIRST_FILE && ed->file->list->gl_pathc > 1
+      && ed->file->name)
     puts (ed->file->name);
 
   printf (ed->exec->opt & (SCRIPTED | WRITE_ONLY) ? ""
-- 
2.43.0


From a53300ab551f468e93a5fb358a315a9a028aca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 39/82] fix: accept empty file name without reading before it

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 7c289f0..d2b071a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -590,7 +590,7 @@ is_valid_name (const char *name, ed_buffer_t *ed)
 
   /* Push file name onto command buffer. Append newline if missing. */
   len = strlen (ed->input = (char *) name);
-  if (name[len - 1] != '\n')
+  if (!len || name[len - 1] != '\n')
     {
       REALLOC_THROW (fn, fn_size, len + 2, NULL, ed);
       strcpy (ed->input = fn, name);
-- 
2.43.0


From f8cdba4da0987f9f0456c122b099f5f119e3ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 40/82] fix: keep text after NUL in global command list

---
 src/glbl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index 79d00a3..79f1237 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -92,7 +92,10 @@ exec_global (ed_buffer_t *ed)
 
   /* Empty command list equivalent to `p' command per SUSv4. */
   if (strlen (ed->input) == 1 && *ed->input == '\n')
-    ed->input = "p\n";
+    {
+      ed->input = "p\n";
+      len = 2;
+    }
 
   for (ed->exec->first_pass = 1; (lp = next_global_node (ed));
        ed->input = gcb, ed->exec->first_pass = 0)
@@ -145,8 +148,8 @@ exec_global (ed_buffer_t *ed)
           /* get_extended_line () isn't reentrant, so save ed->input. */
           REALLOC_THROW (gcb, gcb_size, len + 1, ERR, ed);
 
-          /* Assert: ed->input is NUL-terminated! */
-          strcpy (gcb, ed->input);
+          /* Assert: ed->input is NUL-terminated! It may contain NULs, too. */
+          memcpy (gcb, ed->input, len + 1);
           first_time = 0;
         }
       for (ed->input = gcb; ed->input && *ed->input;)
-- 
2.43.0


From c094c118da8830edc988485557749720dad5c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 41/82] fix: do not copy default file name onto itself when
 file list is empty

---
 src/exec.c  | 9 +++++++--
 src/parse.c | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 991088c..9e7f283 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -539,8 +539,13 @@ E_cmd (ed_buffer_t *ed)
       /* Per SUSv4, file name changes unconditionally. */
       if (*fn != '\0')
         {
-          REALLOC_THROW (ed->file->name, ed->file->name_size, len + 1, ERR, ed);
-          strcpy (ed->file->name, fn);
+          /* With an empty file list, FN is the default file name already. */
+          if (fn != ed->file->name)
+            {
+              REALLOC_THROW (ed->file->name, ed->file->name_size,
+                             len + 1, ERR, ed);
+              strcpy (ed->file->name, fn);
+            }
           ++is_default;
         }
       else if (ed->file->name && *ed->file->name != '\0')
diff --git a/src/parse.c b/src/parse.c
index d2b071a..3775bb7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -392,7 +392,10 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
 
         /* Return default file name if file list empty. */
         if (!gp->gl_pathc && ed->file->name)
-          return ed->file->name;
+          {
+            *len = strlen (ed->file->name);
+            return ed->file->name;
+          }
         break;
       }
 
-- 
2.43.0


From 5fdbdb6c31d733ef2bd027c0b0c3fc244fe63b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 42/82] fix: keep line and scratch file positions consistent if
 interrupted

---
 src/buf.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 51434b1..0a47d68 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -335,6 +335,9 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
       tb[0] = '\0';
       return tb;
     }
+
+  /* If interrupted, recorded offset must still be that of file. */
+  spl1 ();
   ed->core->seek_on_write = 1;         /* Force seek on write. */
 
   /* out of position */
@@ -346,21 +349,28 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
           ed->core->offset = -1;
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
+          spl0 ();
           return NULL;
         }
     }
 
   /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
-  REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
+  if (!realloc_buffer ((void **) &tb, &tb_size, lp->len + 1, ed))
+    {
+      spl0 ();
+      return NULL;
+    }
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
       ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
+      spl0 ();
       return NULL;
     }
   ed->core->offset += lp->len;  /* Update current offset in buffer file. */
   *(tb + lp->len) = '\0';
+  spl0 ();
   return tb;
 }
 
@@ -468,6 +478,10 @@ get_line_node (off_t n, ed_buffer_t *ed)
   static ed_line_node_t *lp = NULL;
   static off_t n_prev = 0;
 
+  ed_line_node_t *np;
+
+  /* If interrupted, lp and n_prev must still agree. */
+  spl1 ();
   if (!lp)
     lp = ed->core->line_head;
 
@@ -495,7 +509,9 @@ get_line_node (off_t n, ed_buffer_t *ed)
             lp = lp->q_forw;
         }
     }
-  return lp;
+  np = lp;
+  spl0 ();
+  return np;
 }
 
 
-- 
2.43.0


From 2b070b00deca644296ea21ee456f920ccbc3246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 43/82] fix: keep heap consistent if regular expression
 matching is interrupted

---
 src/glbl.c | 11 +++++++----
 src/sub.c  | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index 79f1237..fc7c3fd 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -26,6 +26,7 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
   off_t n = from ? to - from + 1 : 0;
   char dc = *ed->input;              /* pattern delimiting char */
   char *s;
+  int status;
 
   spl1 ();
   if (!(re = get_compiled_regex (dc, RE_SEARCH, ed)))
@@ -46,14 +47,16 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
 #ifdef REG_STARTEND
       rm->rm_so = 0;
       rm->rm_eo = lp->len;
-      if ((!regexec (re, s, 0, rm, REG_STARTEND)) == want_match
-          && !append_global_node (lp, ed))
+      spl1 ();
+      status = regexec (re, s, 0, rm, REG_STARTEND);
 #else
       if (ed->state->is_binary)
         NUL_TO_NEWLINE (s, lp->len);
-      if (!regexec (re, s, 0, NULL, 0) == want_match
-          && !append_global_node (lp, ed))
+      spl1 ();
+      status = regexec (re, s, 0, NULL, 0);
 #endif  /* !REG_STARTEND */
+      spl0 ();
+      if (!status == want_match && !append_global_node (lp, ed))
         return ERR;
     }
   return 0;
diff --git a/src/sub.c b/src/sub.c
index d8664f5..ef220e7 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -354,12 +354,14 @@ save_substitute (regex_t *lhs, unsigned s_f, off_t s_nth,
   struct ed_substitute *es = ed->exec->subst;
   regex_t *lhs_prev = es->lhs;
 
+  spl1 ();
   es->lhs = lhs;
   release_regex (lhs_prev, ed);
   es->s_nth = s_nth;
   es->s_mod = s_mod;
   es->s_f = s_f;
   es->sio_f = sio_f;
+  spl0 ();
 }
 
 
@@ -600,23 +602,29 @@ static int
 match_from (const regex_t *re, const char *boln, size_t off, size_t len,
             regmatch_t *rm, int eflag)
 {
+  int status;
+
 #ifdef REG_STARTEND
   rm->rm_so = off;
   rm->rm_eo = len;
-  return regexec (re, boln, re->re_nsub + 1, rm, eflag);
+  spl1 ();
+  status = regexec (re, boln, re->re_nsub + 1, rm, eflag);
+  spl0 ();
 #else
   size_t i;
-  int status;
 
-  if (!(status = regexec (re, boln + off, re->re_nsub + 1, rm, eflag)))
+  spl1 ();
+  status = regexec (re, boln + off, re->re_nsub + 1, rm, eflag);
+  spl0 ();
+  if (!status)
     for (i = 0; i <= re->re_nsub; ++i)
       if (rm[i].rm_so >= 0)
         {
           rm[i].rm_so += off;
           rm[i].rm_eo += off;
         }
-  return status;
 #endif
+  return status;
 }
 
 
-- 
2.43.0


From 7881246c6b678de7d5f956fb409cdc0e32b5d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 44/82] fix: do not leave scratch file behind if interrupted
 while creating it

---
 src/buf.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 0a47d68..77668b3 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -623,10 +623,16 @@ realloc_buffer (void **b, size_t *n, size_t i, ed_buffer_t *ed)
 static int
 init_core_buffer (ed_buffer_t *ed)
 {
-  return  create_disk_buffer (&ed->core->fp,
-                              &ed->core->pathname,
-                              &ed->core->pathname_size,
-                              ed);
+  int status;
+
+  /* If interrupted, file is still to be removed on exit. */
+  spl1 ();
+  status = create_disk_buffer (&ed->core->fp,
+                               &ed->core->pathname,
+                               &ed->core->pathname_size,
+                               ed);
+  spl0 ();
+  return status;
 }
 
 #ifdef WANT_ED_REGISTER
@@ -634,10 +640,16 @@ init_core_buffer (ed_buffer_t *ed)
 int
 init_register_buffer (int idx, ed_buffer_t *ed)
 {
-  return  create_disk_buffer (&ed->core->regbuf->fp[idx],
-                              &ed->core->regbuf->path[idx].name,
-                              &ed->core->regbuf->path[idx].size,
-                              ed);
+  int status;
+
+  /* If interrupted, file is still to be removed on exit. */
+  spl1 ();
+  status = create_disk_buffer (&ed->core->regbuf->fp[idx],
+                               &ed->core->regbuf->path[idx].name,
+                               &ed->core->regbuf->path[idx].size,
+                               ed);
+  spl0 ();
+  return status;
 }
 #endif  /* WANT_ED_REGISTER */
 
@@ -645,10 +657,16 @@ init_register_buffer (int idx, ed_buffer_t *ed)
 int
 init_script_buffer (ed_buffer_t *ed)
 {
-  return  create_disk_buffer (&ed->exec->fp,
-                              &ed->exec->pathname,
-                              &ed->exec->pathname_size,
-                              ed);
+  int status;
+
+  /* If interrupted, file is still to be removed on exit. */
+  spl1 ();
+  status = create_disk_buffer (&ed->exec->fp,
+                               &ed->exec->pathname,
+                               &ed->exec->pathname_size,
+                               ed);
+  spl0 ();
+  return status;
 }
 
 
-- 
2.43.0


From 598958e3b019105060d3b6fb0f98bad0a550e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 45/82] fix: remove scratch file that was created but cannot be
 used

---
 src/buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index 77668b3..ddf3e08 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -279,6 +279,11 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s: %s\n", *name, strerror (errno));
       ed->exec->err = _("Buffer open error");
+      if (fd != -1)
+        {
+          close (fd);
+          unlink (*name);
+        }
       return ERR;
     }
 
-- 
2.43.0


From 33008ed6934f22331290ff3f0b61e3d8a06e6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 46/82] fix: keep registers and macro scripts consistent if
 interrupted

---
 src/exec.c | 54 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 9e7f283..164d377 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -451,9 +451,14 @@ d_cmd (ed_buffer_t *ed)
   if (!ed->exec->global)
     reset_undo_queue (ed);
 #ifdef WANT_ED_REGISTER
+  spl1 ();
   if ((status = append_to_register (ed->exec->region->start,
                                    ed->exec->region->end, 0, ed)) < 0)
-    return status;
+    {
+      spl0 ();
+      return status;
+    }
+  spl0 ();
 #endif
   spl1 ();
   if ((status = delete_lines (ed->exec->region->start,
@@ -597,7 +602,10 @@ exec_macro (ed_buffer_t *ed)
   /* Rest of global command list, if any. */
   input = ed->input + 1;
 
-  if ((status = script_from_register (ed)) < 0 || !ed->exec->fp)
+  spl1 ();
+  status = script_from_register (ed);
+  spl0 ();
+  if (status < 0 || !ed->exec->fp)
     goto err;
 
   /* Execute script. */
@@ -914,18 +922,22 @@ m_cmd (ed_buffer_t *ed)
 #ifdef WANT_ED_REGISTER
       break;
     case REGISTER_READ:
+      spl1 ();
       if ((status = append_from_register (addr, ed)) < 0
           || (status =
               reset_register_buffer (ed->core->regbuf->read_idx, ed)) < 0)
-        return status;
+        {
+          spl0 ();
+          return status;
+        }
+      spl0 ();
       break;
     case REGISTER_WRITE:
+      spl1 ();
       if ((status =
            append_to_register (ed->exec->region->start,
-                               ed->exec->region->end, append, ed)) < 0)
-        return status;
-      spl1 ();
-      if ((status = delete_lines (ed->exec->region->start,
+                               ed->exec->region->end, append, ed)) < 0
+          || (status = delete_lines (ed->exec->region->start,
                                   ed->exec->region->end, ed)) < 0)
         {
           spl0 ();
@@ -934,8 +946,13 @@ m_cmd (ed_buffer_t *ed)
       spl0 ();
       break;
     case REGISTER_READ | REGISTER_WRITE:
+      spl1 ();
       if ((status = inter_register_move (append, ed)) < 0)
-        return status;
+        {
+          spl0 ();
+          return status;
+        }
+      spl0 ();
       break;
     default:
       ed->exec->err = _("Invalid register");
@@ -1337,17 +1354,32 @@ t_cmd (ed_buffer_t *ed)
 #ifdef WANT_ED_REGISTER
       break;
     case REGISTER_READ:
+      spl1 ();
       if ((status = append_from_register (addr, ed)) < 0)
-        return status;
+        {
+          spl0 ();
+          return status;
+        }
+      spl0 ();
       break;
     case REGISTER_WRITE:
+      spl1 ();
       if ((status = append_to_register (ed->exec->region->start,
                                         ed->exec->region->end, append, ed)) < 0)
-        return status;
+        {
+          spl0 ();
+          return status;
+        }
+      spl0 ();
       break;
     case REGISTER_READ | REGISTER_WRITE:
+      spl1 ();
       if ((status = inter_register_copy (append, ed)) < 0)
-        return status;
+        {
+          spl0 ();
+          return status;
+        }
+      spl0 ();
       break;
     default:
       ed->exec->err = _("Invalid register");
-- 
2.43.0


From ea3e5e5d5b4fefeef8523532aead666600c3478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 47/82] fix: keep heap consistent if display or reading of
 stream is interrupted

---
 src/buf.c  | 2 ++
 src/io.c   | 5 +++++
 src/page.c | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index ddf3e08..2b77e0c 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -699,9 +699,11 @@ init_text_deque (ed_text_node_t *th)
   char *t;
   size_t len;
 
+  spl1 ();
   while ((t = shift_text_node (th, &len)))
     free (t);
   INIT_DEQUE (th);
+  spl0 ();
 }
 
 
diff --git a/src/io.c b/src/io.c
index 40a32a2..2015f3b 100644
--- a/src/io.c
+++ b/src/io.c
@@ -319,6 +319,7 @@ read_stream (FILE *fp, off_t after, off_t *size, int cipher, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
+      spl1 ();                                                                \
       if ((_t = (char *) malloc (len)))                                       \
         memcpy (_t, (s), (len));                                              \
       if (!_t || !append_text_node ((th), _t, (len)))                         \
@@ -326,8 +327,10 @@ read_stream (FILE *fp, off_t after, off_t *size, int cipher, ed_buffer_t *ed)
           free (_t);                                                          \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
+          spl0 ();                                                            \
           return ERR;                                                         \
         }                                                                     \
+      spl0 ();                                                                \
     }                                                                         \
   while (0)
 
@@ -390,7 +393,9 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   while ((t = shift_text_node (&th, &len)))
     {
       PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot);
+      spl1 ();
       free (t);
+      spl0 ();
     }
 
   /*
diff --git a/src/page.c b/src/page.c
index 6842b2e..cdf4d0f 100644
--- a/src/page.c
+++ b/src/page.c
@@ -252,6 +252,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
 # define RESET_FB_PREV(fb, ed)                                                \
   do                                                                          \
     {                                                                         \
+      spl1 ();                                                                \
       if ((fb)->prev_first)                                                   \
         {                                                                     \
           free ((fb)->prev_first);                                            \
@@ -264,6 +265,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
         }                                                                     \
       (ed)->display->underflow = 0;                                           \
       (ed)->display->overflow = 0;                                            \
+      spl0 ();                                                                \
     }                                                                         \
   while (0)
 
-- 
2.43.0


From 5568748c6336acdfeeab693aa4bc18cdce4c166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 48/82] fix: report failure of regular expression matching, do
 not take it for a mismatch

---
 src/ed.h   |  1 +
 src/glbl.c |  2 ++
 src/re.c   | 22 +++++++++++++++++++---
 src/sub.c  | 20 ++++++++++++--------
 4 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 2d2c6bf..ff9dc05 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -985,6 +985,7 @@ void reset_global_queue (ed_buffer_t *);
 int reset_register_buffer (int, ed_buffer_t *);
 #endif
 
+int regex_status (int, ed_buffer_t *);
 void release_regex (regex_t *, ed_buffer_t *);
 void reset_undo_queue (ed_buffer_t *);
 int resubstitute (off_t *, off_t *, unsigned *, unsigned *, ed_buffer_t *);
diff --git a/src/glbl.c b/src/glbl.c
index fc7c3fd..9d86431 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -56,6 +56,8 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
       status = regexec (re, s, 0, NULL, 0);
 #endif  /* !REG_STARTEND */
       spl0 ();
+      if ((status = regex_status (status, ed)) < 0)
+        return status;
       if (!status == want_match && !append_global_node (lp, ed))
         return ERR;
     }
diff --git a/src/re.c b/src/re.c
index cc2944f..ed2a679 100644
--- a/src/re.c
+++ b/src/re.c
@@ -245,6 +245,20 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
 }
 
 
+/* regex_status: Distinguish failure to match from failure of regexec(3)
+   itself; return status (0: match, 1: no match). */
+int
+regex_status (int status, ed_buffer_t *ed)
+{
+  if (status && status != REG_NOMATCH)
+    {
+      ed->exec->err = _("Regular expression too complex");
+      return ERR;
+    }
+  return !!status;
+}
+
+
 /* get_matching_node_addr: Return the address of the next line
    matching a pattern in a given direction. Wrap around begin/end of
    editor buffer if necessary. */
@@ -255,6 +269,7 @@ get_matching_node_address (const regex_t *re, int dir, off_t *addr,
   regmatch_t rm[1];
   ed_line_node_t *lp;
   char *s;
+  int status;
 
   *addr = ed->state->dot;
   if (!re)
@@ -270,13 +285,14 @@ get_matching_node_address (const regex_t *re, int dir, off_t *addr,
 #ifdef REG_STARTEND
           rm->rm_so = 0;
           rm->rm_eo = lp->len;
-          if (!regexec (re, s, 0, rm, REG_STARTEND))
+          status = regexec (re, s, 0, rm, REG_STARTEND);
 #else
           if (ed->state->is_binary)
             NUL_TO_NEWLINE (s, lp->len);
-          if (!regexec (re, s, 0, NULL, 0))
+          status = regexec (re, s, 0, NULL, 0);
 #endif  /* !defined (REG_STARTEND) */
-            return 0;
+          if ((status = regex_status (status, ed)) <= 0)
+            return status;
         }
     }
   while (*addr != ed->state->dot);
diff --git a/src/sub.c b/src/sub.c
index ef220e7..f3425d5 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -15,7 +15,7 @@ static size_t char_size (const char *, const char *, ed_buffer_t *);
 static ssize_t count_matches (const regex_t *, const char *, size_t len,
                              ed_buffer_t *);
 static int match_from (const regex_t *, const char *, size_t, size_t,
-                       regmatch_t *, int);
+                       regmatch_t *, int, ed_buffer_t *);
 static int substitute_matching (const regex_t *, const ed_line_node_t *,
                                 size_t *, off_t, off_t, unsigned,
                                 ed_buffer_t *);
@@ -460,7 +460,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
   int matched_prev = 0;
   int nil_prev;
   int nil_next = 1;
-  int status;
+  int status = 0;
 #ifdef REG_STARTEND
   int eflag = REG_STARTEND;
 #else
@@ -507,7 +507,8 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 #endif
   for (*len = 0, boln = txt, eot = txt + lp->len;
        (!changed || (s_f & GSUB))
-         && !match_from (re, boln, txt - boln, lp->len, rm, eflag);
+         && !(status = match_from (re, boln, txt - boln, lp->len, rm, eflag,
+                                   ed));
        txt += j, eflag |= REG_NOTBOL)
     {
       i = rm->rm_so - (txt - boln), j = rm->rm_eo - (txt - boln);
@@ -565,6 +566,8 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
           matched_prev = 0;
         }
     }
+  if (status < 0)
+    return status;
   if (!changed)
     return *len = 0;
   i = eot > txt ? eot - txt : 0;
@@ -597,10 +600,10 @@ char_size (const char *txt, const char *eot, ed_buffer_t *ed)
 
 /* match_from: Match regular expression against line of given length
    from given offset, such that matches are relative to beginning of
-   line; return status of regexec(3). */
+   line; return status (0: match, 1: no match). */
 static int
 match_from (const regex_t *re, const char *boln, size_t off, size_t len,
-            regmatch_t *rm, int eflag)
+            regmatch_t *rm, int eflag, ed_buffer_t *ed)
 {
   int status;
 
@@ -624,7 +627,7 @@ match_from (const regex_t *re, const char *boln, size_t off, size_t len,
           rm[i].rm_eo += off;
         }
 #endif
-  return status;
+  return regex_status (status, ed);
 }
 
 
@@ -644,6 +647,7 @@ count_matches (const regex_t *re, const char *txt, size_t len,
   int matched_prev = 0;
   int nul_prev;
   int nul_next = 1;
+  int status = 0;
 #ifdef REG_STARTEND
   int eflag = REG_STARTEND;
 #else
@@ -664,7 +668,7 @@ count_matches (const regex_t *re, const char *txt, size_t len,
     NUL_TO_NEWLINE (txt, len);
 #endif
   for (eot = txt + len;
-       !match_from (re, boln, txt - boln, len, rm, eflag);
+       !(status = match_from (re, boln, txt - boln, len, rm, eflag, ed));
        txt += off, eflag |= REG_NOTBOL)
     {
       off = rm->rm_eo - (txt - boln);
@@ -698,7 +702,7 @@ count_matches (const regex_t *re, const char *txt, size_t len,
           matched_prev = 0;
         }
     }
-  return nmatches;
+  return status < 0 ? status : (ssize_t) nmatches;
 }
 
 
-- 
2.43.0


From 937eb6334231ea2739cff78beffe3e3bfa4863e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 49/82] fix: do not crash if macro script cannot be set up

---
 src/aux.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index a405bed..b90452a 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -323,6 +323,8 @@ push_stack_frame (ed_buffer_t *ed)
 int
 pop_stack_frame (ed_buffer_t *ed)
 {
+  int status = 0;
+
   spl1 ();
   --ed->core->sp;
 
@@ -339,7 +341,7 @@ pop_stack_frame (ed_buffer_t *ed)
 #else
   stdin = ed->core->stack_frame[ed->core->sp]->fp;
 #endif
-  if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
+  if (ed->exec->fp && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
       && (ftruncate (fileno (ed->exec->fp),
                     ed->core->stack_frame[ed->core->sp]->size) == -1
           || fflush (ed->exec->fp) == EOF
@@ -348,13 +350,12 @@ pop_stack_frame (ed_buffer_t *ed)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("File seek error");
-      spl0 ();
-      return ERR;
+      status = ERR;
     }
   free (ed->core->stack_frame[ed->core->sp]);
   spl0 ();
 
-  return 0;
+  return status;
 }
 
 
@@ -378,7 +379,7 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
 #else
       stdin = ed->core->stack_frame[0]->fp;
 #endif
-      if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
+      if (ed->exec->fp && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
           && (ftruncate (fileno (ed->exec->fp),
                          ed->core->stack_frame[0]->size) == -1
               || fflush (ed->exec->fp) == EOF
@@ -387,8 +388,7 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
         {
           fprintf (stderr, "stdin: %s\n", strerror (errno));
           ed->exec->err = _("File seek error");
-          spl0 ();
-          return ERR;
+          status = ERR;
         }
       while (ed->core->sp > 0)
         free (ed->core->stack_frame[ed->core->sp--]);
-- 
2.43.0


From 86834c85066f3a384000981662d4a18c47fa5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 50/82] fix: keep child processes from handling signals as the
 editor

---
 src/aux.c  | 14 ++++++++++----
 src/cmds.c |  4 ++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index b90452a..f6f5340 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -81,10 +81,13 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       return ERR;
     }
 
-  /* Create first child process for shell command. */
+  /* Create first child process for shell command. Child must not
+     handle signals on behalf of the editor. */
+  spl1 ();
   switch (shell_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       close (ip[0]), close (ip[1]);
@@ -93,6 +96,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       goto err;
     case 0:
       /* Reset signals for shell. */
+      signal (SIGHUP, SIG_DFL);
       signal (SIGINT, SIG_DFL);
       signal (SIGQUIT, SIG_DFL);
 
@@ -117,7 +121,6 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   /* Close write end of pipe op, op[1], so that EOF is seen. */
   close (op[1]);
 
-  spl1 ();
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
       kill (shell_pid, SIGINT);
@@ -131,12 +134,12 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       ed->state->is_binary = 0;
       ed->state->is_empty = 1;
     }
-  spl0 ();
 
   /* Create second child process for writing to shell command. */
   switch (write_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       (void) close (ip[1]);
@@ -145,7 +148,9 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       goto err;
     case 0:
 
-      /* Reset signal for writing to shell. */
+      /* Reset signals for writing to shell. */
+      signal (SIGHUP, SIG_DFL);
+      signal (SIGINT, SIG_DFL);
       signal (SIGPIPE, SIG_DFL);
 
       /*
@@ -176,6 +181,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       /* Avoid exit (3). */
       _exit (status < 0 ? 127 << 8 : 0);
     }
+  spl0 ();
 
   /* Close unused pipe ends, then open shell process's standard output. */
   if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..71c8b8d 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -311,9 +311,12 @@ system_shell (const char *sc, ed_buffer_t *ed)
   int wstatus;
   pid_t shell_pid;
 
+  /* Child must not handle signals on behalf of the editor. */
+  spl1 ();
   switch (shell_pid = vfork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       status = ERR;
@@ -331,6 +334,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
 
       /* NOTREACHED */
     }
+  spl0 ();
 
   while (waitpid (shell_pid, &wstatus, 0) < 0)
     if (errno != EINTR)
-- 
2.43.0


From 84e7bae6ccacccd990d9c255ffccc93153b3682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 51/82] fix: close pipes of shell filter on failure

---
 src/aux.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index f6f5340..8659664 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -74,12 +74,19 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
    * Create two pipes: one for writing to the shell command and
    * another for reading from it.
    */
-  if (pipe (ip) < 0 || pipe (op) < 0)
+  if (pipe (ip) < 0)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
       return ERR;
     }
+  if (pipe (op) < 0)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("Pipe open error");
+      close (ip[0]), close (ip[1]);
+      return ERR;
+    }
 
   /* Create first child process for shell command. Child must not
      handle signals on behalf of the editor. */
@@ -124,6 +131,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
       kill (shell_pid, SIGINT);
+      close (ip[0]), close (ip[1]), close (op[0]);
       spl0 ();
       goto err;
     }
@@ -142,6 +150,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
+      (void) close (ip[0]);
       (void) close (ip[1]);
       (void) close (op[0]);
       status = ERR;
@@ -188,13 +197,18 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
+      close (op[0]);
       status = ERR;
       goto err;
     }
 
   /* Read standard output of shell process via reentrant read_stream. */
   if ((status = read_stream_r (opp, ed->state->dot, &size, ed)) < 0)
-    goto err;
+    {
+      /* Otherwise shell process may wait for its output to be read. */
+      fclose (opp);
+      goto err;
+    }
 
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
 
-- 
2.43.0


From 459e1049e56fb49e0f350b7a1fcea74e27c0ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 52/82] fix: report failure to pass lines to shell filter

---
 src/aux.c  | 14 ++++++++++++--
 src/cmds.c |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 8659664..40ea47a 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -14,6 +14,7 @@
       pid_t any_pid;                                                          \
       int pid_status = 0;                                                     \
       int saved_pid_status = 0;                                               \
+      int write_failed = 0;                                                   \
       int waiting = write_pid == -1 ? 1 : 2;                                  \
                                                                               \
       while (waiting)                                                         \
@@ -32,9 +33,18 @@
           {                                                                   \
             if (any_pid == shell_pid)                                         \
               saved_pid_status = pid_status;                                  \
+            else if (any_pid == write_pid && WIFEXITED (pid_status)           \
+                     && WEXITSTATUS (pid_status))                             \
+              write_failed = 1;                                               \
             --waiting;                                                        \
           }                                                                   \
                                                                               \
+      if (write_failed)                                                       \
+        {                                                                     \
+          ed->exec->err = _("Pipe write error");                              \
+          status = ERR;                                                       \
+          goto end;                                                           \
+        }                                                                     \
       if (WIFEXITED (saved_pid_status) && WEXITSTATUS (saved_pid_status))     \
         {                                                                     \
           snprintf (exit_status, sizeof exit_status, _("Exit status: %#x"),   \
@@ -119,7 +129,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
           || execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
@@ -188,7 +198,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
         }
 
       /* Avoid exit (3). */
-      _exit (status < 0 ? 127 << 8 : 0);
+      _exit (status < 0 ? 127 : 0);
     }
   spl0 ();
 
diff --git a/src/cmds.c b/src/cmds.c
index 71c8b8d..af7b5a7 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -329,7 +329,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
       if (execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
-- 
2.43.0


From 7e8659d4b962d8d1642c8dc0950b5469737e3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 53/82] fix: exit if editor buffer cannot be created

---
 src/buf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 2b77e0c..89974c3 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -32,11 +32,10 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
 {
   char *cs, *ls;
   long l;
-  int status;
 
-  if ((status = init_stdio (ed)) < 0
-      || (status = init_core_buffer (ed)) < 0)
-    return status;
+  /* Editor is of no use without buffer. */
+  if (init_stdio (ed) < 0 || init_core_buffer (ed) < 0)
+    return FATAL;
 
   /*
    * If ed is invoked with file args, any file globbing is done at the
@@ -44,7 +43,8 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
    * even if file globbing support is not enabled.
    */
   ed->file->list->gl_pathc = argc;
-  ed->file->list->gl_pathv = dup_argv (argc, argv, ed);
+  if (!(ed->file->list->gl_pathv = dup_argv (argc, argv, ed)))
+    return FATAL;
 
   /*
    * Reset file_glob->gl_offs after first glob(3) -- see file_glob().
-- 
2.43.0


From 58bdeb19fb7da8a3086b2c4409b0a25183748059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 54/82] fix: keep buffer if new one cannot be created for `e'

---
 src/buf.c  | 46 ++++++++++++++++++++--------------------------
 src/exec.c |  8 ++++++--
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 89974c3..144695a 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -18,7 +18,6 @@
 #endif
 
 /* Static function declarations. */
-static int close_ed_buffer (ed_buffer_t *);
 static int create_disk_buffer (FILE **, char **, size_t *, ed_buffer_t *);
 static char **dup_argv (int, char **, ed_buffer_t *);
 static int init_core_buffer(ed_buffer_t *);
@@ -223,15 +222,31 @@ init_ed_state (off_t addr, struct ed_state *state)
 }
 
 
-/* reopen_ed_buffer: Close on-disk buffer and create new one. */
+/* reopen_ed_buffer: Create new on-disk buffer, then close previous one. */
 int
 reopen_ed_buffer (ed_buffer_t *ed)
 {
+  struct ed_core prev = *ed->core;
   int status;
 
-  if ((status = close_ed_buffer (ed)) < 0
-      || (status = init_core_buffer (ed)) < 0)
-    return status;
+  /* Assert: spl1 () */
+
+  ed->core->fp = NULL;
+  ed->core->pathname = NULL;
+  ed->core->pathname_size = 0;
+  if ((status = init_core_buffer (ed)) < 0)
+    {
+      free (ed->core->pathname);
+      *ed->core = prev;
+      return status;
+    }
+  ed->core->offset = 0;
+  ed->core->seek_on_write = 0;
+
+  /* Discard previous buffer file - its contents are no longer needed. */
+  fclose (prev.fp);
+  unlink (prev.pathname);
+  free (prev.pathname);
   return 0;
 }
 
@@ -305,27 +320,6 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
 }
 
 
-/* close_ed_buffer: Close on-disk buffer file. */
-static int
-close_ed_buffer (ed_buffer_t *ed)
-{
-  int status = 0;
-
-  if (ed->core->fp && fclose (ed->core->fp) < 0)
-    {
-      fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
-      ed->exec->err = _("Buffer close error");
-      status = ERR;
-    }
-  ed->core->fp = NULL;
-  ed->core->offset = 0;
-  ed->core->seek_on_write = 0;
-  if (ed->core->pathname)
-    unlink (ed->core->pathname);
-  return status;
-}
-
-
 /* get_buffer_line: Return pointer to copy of line from buffer file. */
 char *
 get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
diff --git a/src/exec.c b/src/exec.c
index 164d377..8f5a9d1 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -514,19 +514,23 @@ E_cmd (ed_buffer_t *ed)
   FILE_NAME (fn, len, cy, 1, 0, ed);
 
   spl1 ();
+  reset_undo_queue (ed);
   if (ed->state->lines > 0
       && (status = delete_lines (1, ed->state->lines, ed)) < 0)
     {
       spl0 ();
       return status;
     }
-  reset_undo_queue (ed);
-  reset_global_queue (ed);
   if ((status = reopen_ed_buffer (ed)) < 0)
     {
+      /* Keep buffer. */
+      undo_last_command (ed);
+      reset_undo_queue (ed);
       spl0 ();
       return status;
     }
+  reset_undo_queue (ed);
+  reset_global_queue (ed);
 
   init_ed_command (cx != '\n', ed);
   init_ed_state (0, &ed->state[0]);
-- 
2.43.0


From ba202d66414878080ac44f601a9b32befadb200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 55/82] fix: do not read before start of empty HOME on hangup

---
 src/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index 1f2638b..d401cac 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -59,7 +59,7 @@ handle_hup (int signo)
   if (ed->state->lines
       && write_file ("ed.hup", 0, 1, ed->state->lines,
                      &addr, &size, "w", ed) < 0
-      && (s = getenv ("HOME")))
+      && (s = getenv ("HOME")) && *s)
     {
       m = *(s + (len = strlen (s)) - 1) != '/';
       if (!(hup = (char *) malloc ((size_t) (len + m + sizeof template))))
-- 
2.43.0


From fc8744ba0e80f2fb7610ee4ed786378653728cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 56/82] fix: handle signals again after failure to allocate
 frame buffer

---
 src/page.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/page.c b/src/page.c
index cdf4d0f..61ba93a 100644
--- a/src/page.c
+++ b/src/page.c
@@ -824,15 +824,24 @@ init_frame_buffer (ed_frame_buffer_t *fb, ed_buffer_t *ed)
             free (fb->row[n]->text);
             init_frame_node (fb->row[n]);
           }
-      REALLOC_THROW (fp, fp_size,
-                     (ed->display->ws_row - 1) * sizeof (ed_frame_node_t *),
-                     ERR, ed);
+      if (!realloc_buffer ((void **) &fp, &fp_size,
+                           (ed->display->ws_row - 1)
+                           * sizeof (ed_frame_node_t *), ed))
+        {
+          spl0 ();
+          return ERR;
+        }
       fb->row = (ed_frame_node_t **) fp;
       for (n = max (0, fb->rows - 1); n < ed->display->ws_row - 1; ++n)
         {
           size = 0;
           fb->row[n] = NULL;
-          REALLOC_THROW (fb->row[n], size, sizeof (ed_frame_node_t), ERR, ed);
+          if (!realloc_buffer ((void **) &fb->row[n], &size,
+                               sizeof (ed_frame_node_t), ed))
+            {
+              spl0 ();
+              return ERR;
+            }
           init_frame_node (fb->row[n]);
         }
 
-- 
2.43.0


From c7e186fe33e1758b3cd9484a6c5a129f8fe9512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 57/82] fix: do not let interrupt stop saving of buffer on
 hangup

---
 src/signal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index d401cac..a2a24ed 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -55,6 +55,9 @@ handle_hup (int signo)
 
   if (!_sigactive)
     quit (1, ed);
+
+  /* If interrupted, buffer is still to be saved. */
+  spl1 ();
   _sigflags &= ~(1 << (signo - 1));
   if (ed->state->lines
       && write_file ("ed.hup", 0, 1, ed->state->lines,
@@ -80,6 +83,10 @@ handle_int (int signo)
 
   if (!_sigactive)
     quit (1, ed);
+
+  /* If a hangup is pending, it may not be handled otherwise. */
+  if ((_sigflags & (1 << (SIGHUP - 1))))
+    handle_hup (SIGHUP);
   _sigflags &= ~(1 << (signo - 1));
   LONGJMP (env, -1);
 }
@@ -159,6 +166,8 @@ reliable_signal (int signo, signal_t handler)
 
   sa.sa_handler = handler;
   sigemptyset (&sa.sa_mask);
+  sigaddset (&sa.sa_mask, SIGHUP);
+  sigaddset (&sa.sa_mask, SIGINT);
   sa.sa_flags = 0;
 # ifdef SA_RESTART
   sa.sa_flags |= SA_RESTART;
-- 
2.43.0


From 9d35c190904fcff5a8b6b5774a1340b631578d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 58/82] fix: mark lines added by interrupted or failed command
 as modification

---
 src/cmds.c |  6 +++---
 src/exec.c | 25 +++++++++++++++++++------
 src/io.c   | 13 ++++++++-----
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index af7b5a7..935348f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -72,10 +72,10 @@ append_lines (off_t after, ed_buffer_t *ed)
           spl0 ();
           return ERR;
         }
-      lp = get_line_node (ed->state->dot, ed);
-      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       ed->state->is_empty = 0;
       ed->state->is_modified = 1;
+      lp = get_line_node (ed->state->dot, ed);
+      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       spl0 ();
     }
   /* NOTREACHED */
@@ -108,8 +108,8 @@ copy_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
               return ERR;
             }
           ed->state->dot = ++after;
-          APPEND_UNDO_NODE (np, up, after, ed);
           ed->state->is_modified = 1;
+          APPEND_UNDO_NODE (np, up, after, ed);
           spl0 ();
         }
     }
diff --git a/src/exec.c b/src/exec.c
index 8f5a9d1..d60568b 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1052,10 +1052,12 @@ r_cmd (ed_buffer_t *ed)
 {
   off_t addr = 0;
   off_t size = 0;
+  off_t lines;
   size_t len = 0;
   char *fn = NULL;
   int cx = 0;
   int is_default = 0;
+  int is_modified;
   int status = 0;               /* Return status */
 
   if (!isspace ((unsigned char) *ed->input))
@@ -1093,12 +1095,19 @@ r_cmd (ed_buffer_t *ed)
   ed->state->newline_appended = cx;
   if (!(ed->exec->region->addrs && ed->state->lines))
     ed->exec->region->end = ed->state->lines;
+  lines = ed->state->lines;
+  is_modified = ed->state->is_modified;
   spl0 ();
 
   if (*fn == '!' || (*fn == '\0' && ed->file->name && *ed->file->name == '!'))
     {
-      if ((status = read_pipe (*fn == '!' ? fn : ed->file->name,
-                               ed->exec->region->end, &addr, &size, ed)) < 0)
+      /* If interrupted, lines read so far are a modification. */
+      ed->state->is_modified |= lines > 0;
+      status = read_pipe (*fn == '!' ? fn : ed->file->name,
+                          ed->exec->region->end, &addr, &size, ed);
+      if (ed->state->lines == lines)
+        ed->state->is_modified = is_modified;
+      if (status < 0)
         return status;
     }
   else
@@ -1118,10 +1127,14 @@ r_cmd (ed_buffer_t *ed)
        * mandated by SUSv5, if default file name is not set,
        * trivially succeed by reading from `/dev/null'.
        */
-      if ((status = read_file (is_default ? ed->file->name
-                               : (*fn != '\0' ? fn : "/dev/null"),
-                               ed->exec->region->end, &addr, &size,
-                               is_default, ed)) < 0)
+      ed->state->is_modified |= lines > 0;
+      status = read_file (is_default ? ed->file->name
+                          : (*fn != '\0' ? fn : "/dev/null"),
+                          ed->exec->region->end, &addr, &size,
+                          is_default, ed);
+      if (ed->state->lines == lines)
+        ed->state->is_modified = is_modified;
+      if (status < 0)
         return status;
 
       if (ed->file->is_glob && ed->exec->opt & VERBOSE)
diff --git a/src/io.c b/src/io.c
index 2015f3b..544cf94 100644
--- a/src/io.c
+++ b/src/io.c
@@ -969,7 +969,9 @@ append_from_register (off_t addr, ed_buffer_t *ed)
 {
   int read_idx = ed->core->regbuf->read_idx;
   FILE *read_fp = ed->core->regbuf->fp[read_idx];
+  off_t lines = ed->state->lines;
   off_t size = 0;
+  int is_modified = ed->state->is_modified;
   int status = 0;
 
   /* Nothing to read. */
@@ -983,11 +985,12 @@ append_from_register (off_t addr, ed_buffer_t *ed)
       return ERR;
     }
 
-  if ((status = read_stream (read_fp, addr, &size, 0, ed)) < 0)
-    return status;
-  if (size)
-    ed->state->is_modified = 1;
-  return 0;
+  /* If interrupted, lines read so far are a modification. */
+  ed->state->is_modified = 1;
+  status = read_stream (read_fp, addr, &size, 0, ed);
+  if (ed->state->lines == lines)
+    ed->state->is_modified = is_modified;
+  return status < 0 ? status : 0;
 }
 
 
-- 
2.43.0


From bac254920dc37f2572bf4888ff02221eb5ba4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 59/82] fix: forget failed seek or truncation before next write

---
 src/io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.c b/src/io.c
index 544cf94..a0d98d1 100644
--- a/src/io.c
+++ b/src/io.c
@@ -619,6 +619,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         {
           fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
           ed->exec->err = _("File seek error");
+          clearerr (fp);
           return ERR;
         }
       if (*mode == 'w' && (fflush (fp) == EOF
@@ -626,6 +627,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         {
           fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
           ed->exec->err = _("File truncate error");
+          clearerr (fp);
           return ERR;
         }
     }
-- 
2.43.0


From 27a03fc3c287615cdaa739a1ef86f3a557673392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 60/82] fix: tell files of same inode number on different
 devices apart

---
 src/ed.h |  1 +
 src/io.c | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index ff9dc05..7bf3715 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -489,6 +489,7 @@ struct ed_file
 #ifdef WANT_FILE_LOCK
   FILE *handle;                 /* File handle. */
   INO_T inode;                  /* File inode. */
+  dev_t device;                 /* Device of file inode. */
 #endif  /* WANT_FILE_LOCK */
 
   glob_t *glob;                 /* Glob of file names. */
diff --git a/src/io.c b/src/io.c
index a0d98d1..cd9216e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -28,7 +28,7 @@
 /* Static function declarations. */
 static int put_stream_line (FILE *, const char *, size_t, int, ed_buffer_t *);
 static int read_stream (FILE *, off_t, off_t *, int, ed_buffer_t *);
-static int get_inode (const char *, INO_T *, ed_buffer_t *);
+static int get_inode (const char *, INO_T *, dev_t *, ed_buffer_t *);
 
 
 /* read_file: Read file to buffer; return line count. */
@@ -38,6 +38,7 @@ read_file (const char *fn, off_t after, off_t *addr,
 {
   FILE *fp = NULL;
   INO_T inode;
+  dev_t device;
   int status = 0;
   int already_open = 0;         /* File already open. */
   int already_locked = 0;         /* File already locked. */
@@ -46,11 +47,12 @@ read_file (const char *fn, off_t after, off_t *addr,
 
   *addr = 0;
 #ifdef WANT_FILE_LOCK
-  if (get_inode (fn, &inode, ed) < 0)
+  if (get_inode (fn, &inode, &device, ed) < 0)
     return ERR;
 
   /* File already open. */
-  if ((already_open = (inode && inode == ed->file->inode)))
+  if ((already_open = (inode && inode == ed->file->inode
+                       && device == ed->file->device)))
     {
       if (FSEEK (fp = ed->file->handle, 0L, SEEK_SET) == -1)
         {
@@ -107,6 +109,7 @@ read_file (const char *fn, off_t after, off_t *addr,
       if (ed->file->handle)
         (void) fclose (ed->file->handle);
       ed->file->inode = inode;
+      ed->file->device = device;
       ed->file->handle = fp;
       ed->file->is_writable = !read_only;
       spl0 ();
@@ -603,15 +606,17 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
   INO_T inode;
+  dev_t device;
   int file_already_open = 0;
   int status;
 
 #ifdef WANT_FILE_LOCK
-  if (get_inode (fn, &inode, ed) < 0)
+  if (get_inode (fn, &inode, &device, ed) < 0)
     return ERR;
 
   /* File already open and writable. */
-  if ((file_already_open = (inode && inode == ed->file->inode))
+  if ((file_already_open = (inode && inode == ed->file->inode
+                            && device == ed->file->device))
       && ed->file->is_writable)
     {
       if (FSEEK (fp = ed->file->handle, 0L,
@@ -668,6 +673,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
           if (ed->file->handle)
             (void) fclose (ed->file->handle);
           ed->file->inode = inode;
+          ed->file->device = device;
           ed->file->handle = fp;
           ed->file->is_writable = 1;
           spl0 ();
@@ -862,9 +868,9 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
   return 0;
 }
 
-/* get_inode: Get file inode, return status. */
+/* get_inode: Get file inode and its device, return status. */
 static int
-get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
+get_inode (const char *fn, INO_T *inode, dev_t *device, ed_buffer_t *ed)
 {
   STAT_T sb;
 
@@ -875,6 +881,7 @@ get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
         {
           /* Assert: i-node 0 is not assigned to any file. */
           *inode = 0;
+          *device = 0;
           return 0;
         }
       fprintf (stderr, "%s: %s\n", fn, strerror (errno));
@@ -889,6 +896,7 @@ get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
       return ERR;
     }
   *inode = sb.st_ino;
+  *device = sb.st_dev;
   return 0;
 }
 
-- 
2.43.0


From d564fb8f287066a86138e8f73123a08c6dae07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 61/82] fix: show previous page after first line has been
 printed

---
 src/page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index 61ba93a..2be50e7 100644
--- a/src/page.c
+++ b/src/page.c
@@ -298,7 +298,7 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
    * XXX: Shouldn't be exceptions for half-page scolling.
    */
   if (ed->display->io_f & ZBWD && !(ed->display->io_f & (ZHBW | ZHFW))
-      && !ed->exec->region->addrs && fb->prev_first
+      && !ed->exec->region->addrs && ed->display->is_paging && fb->prev_first
            && fb->prev_first->addr == 1 && fb->prev_first->offset == 0)
     {
       ed->exec->err = _("Address out of range");
-- 
2.43.0


From 0ab05100e3fe4b67686e5fa0a599026ea357c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 62/82] fix: center half page on addressed line near top of
 buffer

---
 src/exec.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index d60568b..5822d84 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1242,12 +1242,11 @@ scroll_backward_half (ed_buffer_t *ed)
     return status;
 
   /* Scrolling into bottom half of first page...   */
-  if (ed->display->is_paging
-      && ed->display->ws_row / 2 - 1 < ed->display->page_addr
-      && ed->display->page_addr < ed->display->ws_row)
+  if (ed->display->ws_row / 2 - 1 < ed->exec->region->end
+      && ed->exec->region->end < ed->display->ws_row)
     {
       /* Calculation assumes one buffer line per terminal line. */
-      ed->display->page_addr += ed->display->ws_row / 2 - 1;
+      ed->display->page_addr = ed->exec->region->end + ed->display->ws_row / 2 - 1;
       ed->display->page_addr = min (ed->state->lines, ed->display->page_addr);
       ed->exec->region->start = ed->display->page_addr;
       ed->exec->region->end = ed->display->page_addr;
@@ -1308,8 +1307,7 @@ scroll_forward_half (ed_buffer_t *ed)
         return status;
 
       /* Targeting region in bottom half of first page...   */
-      if (ed->exec->region->addrs
-          && ed->display->ws_row / 2 - 1 < ed->exec->region->end
+      if (ed->display->ws_row / 2 - 1 < ed->exec->region->end
           && ed->exec->region->end < ed->display->ws_row)
         {
           /* Calculation assumes one buffer line per terminal line. */
-- 
2.43.0


From 471af558b7a8453cc37ff8755371c6d8d1b17a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 63/82] fix: apply page size before half page is laid out

---
 src/exec.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 5822d84..4e8639c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1216,6 +1216,18 @@ s_cmd (ed_buffer_t *ed)
           display_lines (ed->state->dot, ed->state->dot, ed) : 0);
 }
 
+/* half_page_size: Return window height given as page size, if any,
+   otherwise current one. */
+static int
+half_page_size (ed_buffer_t *ed)
+{
+  unsigned long len;
+
+  return (isdigit ((unsigned char) *ed->input)
+          && 1 < (len = strtoul (ed->input, NULL, 10)) && len < ROWS_MAX
+          ? len : ed->display->ws_row);
+}
+
 static int
 scroll_backward_half (ed_buffer_t *ed)
 {
@@ -1240,6 +1252,7 @@ scroll_backward_half (ed_buffer_t *ed)
   if ((status =
        is_valid_range (ed->display->page_addr, ed->display->page_addr, ed)) < 0)
     return status;
+  ed->display->ws_row = half_page_size (ed);
 
   /* Scrolling into bottom half of first page...   */
   if (ed->display->ws_row / 2 - 1 < ed->exec->region->end
@@ -1281,6 +1294,7 @@ scroll_backward_half (ed_buffer_t *ed)
 static int
 scroll_forward_half (ed_buffer_t *ed)
 {
+  int resized;                  /* Set if window height changes. */
   int status;
 
   /*
@@ -1295,16 +1309,19 @@ scroll_forward_half (ed_buffer_t *ed)
       return ERR;
     }
 
-  if (!ed->display->is_paging || ed->exec->region->addrs)
+  resized = half_page_size (ed) != ed->display->ws_row;
+  if (!ed->display->is_paging || ed->exec->region->addrs || resized)
     {
 
-      /* Allow `]' command to succeed immediately after opening file. */
-      if (!ed->display->is_paging && ed->display->page_addr == 0)
+      /* Allow `]' command to succeed immediately after opening file.
+         A page of different height is centered around last line. */
+      if (ed->display->is_paging ? resized : ed->display->page_addr == 0)
         ed->display->page_addr = ed->state->dot;
 
       if ((status = is_valid_range (ed->display->page_addr,
                                     ed->display->page_addr, ed)) < 0)
         return status;
+      ed->display->ws_row = half_page_size (ed);
 
       /* Targeting region in bottom half of first page...   */
       if (ed->display->ws_row / 2 - 1 < ed->exec->region->end
@@ -1758,7 +1775,8 @@ z_cmd (ed_buffer_t *ed)
        *     the screen.
        */
       addr = min (ed->state->lines, (ed->exec->region->end +
-                                     ((ed->display->ws_row - 1) >> 1) - 1));
+                                     max (1, (ed->display->ws_row - 1) >> 1)
+                                     - 1));
       ed->display->io_f |= ZFWD | ZHFW;
       break;
     }
-- 
2.43.0


From 113a54abb4390f73057dd49ce28c7cff8a45f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 64/82] fix: start rows of folded line at text they continue

---
 src/page.c | 45 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/src/page.c b/src/page.c
index 2be50e7..1ece5d0 100644
--- a/src/page.c
+++ b/src/page.c
@@ -20,7 +20,7 @@ static int init_frame_buffer (ed_frame_buffer_t *, ed_buffer_t *);
 static void init_frame_node (ed_frame_node_t *);
 static int put_frame_buffer_line (ed_line_node_t *, off_t,
                                   ed_frame_buffer_t *, ed_buffer_t *);
-static void inc_mod_fb_row (ed_line_node_t *, off_t, int,
+static void inc_mod_fb_row (ed_line_node_t *, off_t, size_t, int,
                             ed_frame_buffer_t *, ed_buffer_t *);
 
 #endif
@@ -510,7 +510,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   off_t n;
   char line_no[OFF_T_LEN + TAB_WIDTH + 1];
   char *cp, *s;
-  char *eot;
+  char *bot, *eot;
   size_t col = 0;
   size_t len;
   unsigned int sgr_len = 0;     /* Length of ANSI SGR sequence. */
@@ -573,6 +573,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   if (!(s = get_buffer_line (lp, ed)))
     return ERR;
 
+  bot = s;
   eot = s + lp->len;
 
   if (ed->display->io_f & OFFB)
@@ -595,6 +596,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
 
   for (; fb->rem_chars && !fb->is_full; fb->rem_chars -= csize, s += csize)
     {
+      /* Each byte of a multibyte char is listed as an octal escape. */
+      csize = ed->display->io_f & LIST ? 1 : char_size (s, fb->rem_chars, ed);
+
       if (!(ed->display->io_f & LIST)
           || (31 < *s && *s < 127 && *s != '\\' && *s != '$'))
         {
@@ -625,7 +629,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
            * line -- indented to the current column.
            */
           if ((form_feed = (*s == '\f')))
-            inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
+            inc_mod_fb_row (lp, addr, s - bot + 1, ed->display->io_f & ZBWD, fb, ed);
         }
       else
         {
@@ -675,13 +679,10 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           if (ed->display->io_f & LIST)
             FB_PUTS (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)
                      ? "" : "\\\n", fb, ed);
-          inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
+          inc_mod_fb_row (lp, addr, s - bot + csize,
+                          ed->display->io_f & ZBWD, fb, ed);
           col = 0;
         }
-
-
-      /* Each byte of a multibyte char is listed as an octal escape. */
-      csize = ed->display->io_f & LIST ? 1 : char_size (s, fb->rem_chars, ed);
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
@@ -768,37 +769,15 @@ display_frame_buffer (const ed_frame_buffer_t *fb, ed_buffer_t *ed)
 }
 
 
-/* inc_mod_fb_row: Increment fb->row_i and calculate text offset. */
+/* inc_mod_fb_row: Increment fb->row_i; new row starts at given text offset. */
 static void
-inc_mod_fb_row (ed_line_node_t *lp, off_t addr, int ok_to_wrap,
+inc_mod_fb_row (ed_line_node_t *lp, off_t addr, size_t offset, int ok_to_wrap,
                 ed_frame_buffer_t *fb, ed_buffer_t *ed)
 {
-  size_t offset = 0;
-
   INC_FB_ROW (ok_to_wrap, fb);
 
   if (!fb->is_full)
-    {
-      if (fb->prev_first && fb->prev_first->lp == lp)
-        {
-          /* XXX: See tests zb[12].tso. */
-          offset = (ok_to_wrap ? fb->prev_first->offset : lp->len);
-          if (offset < fb->rem_chars - 1)
-            offset = lp->len - fb->rem_chars + 1;
-          else
-            offset -= fb->rem_chars - 1;
-        }
-      else
-        {
-          /* XXX: See tests zb[34].tso. */
-          offset = (ok_to_wrap && fb->prev_first ? fb->prev_first->offset
-                    : lp->len - fb->rem_chars + 1);
-          if (offset < fb->rem_chars - 1)
-            offset = lp->len - fb->rem_chars + 1;
-        }
-
-      INIT_FB_ROW (lp, addr, offset, fb);
-    }
+    INIT_FB_ROW (lp, addr, offset, fb);
 }
 
 
-- 
2.43.0


From 4382b6b473a970b3007995d297d3182c17a22e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 65/82] fix: forget split lines when pages do not follow each
 other

---
 src/exec.c | 7 +++++++
 src/page.c | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 4e8639c..07d845f 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -297,6 +297,13 @@ exec_command (ed_buffer_t *ed)
 #endif
   ed->display->is_paging = ed->display->paging;
   ed->display->paging = 0;
+
+  /* Without paging, no line is split between pages. */
+  if (!ed->display->is_paging)
+    {
+      ed->display->underflow = 0;
+      ed->display->overflow = 0;
+    }
   ed->display->io_f = 0;
 
   /* Get command prefix, if any. */
diff --git a/src/page.c b/src/page.c
index 1ece5d0..ee269db 100644
--- a/src/page.c
+++ b/src/page.c
@@ -351,6 +351,9 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
       else
         {
           fb->rem_chars = bp->len;
+
+          /* Last line, so far, is complete. */
+          rem_chars = 0;
           fb->ff_offset = 0;
         }
       if ((status = put_frame_buffer_line (bp, from + lc, fb, ed)) < 0)
-- 
2.43.0


From 6a7a67dcd1838812acb2d76011242055fc024fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 66/82] fix: confine -f scripts of restricted editor to working
 directory

red -e a -f /any/file -e . -e ,p printed files outside the working
directory: option -f, also from ED, opened any path.
---
 src/main.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.c b/src/main.c
index d86cf29..ff98b78 100644
--- a/src/main.c
+++ b/src/main.c
@@ -765,6 +765,7 @@ append_script_expression (const char *s, ed_buffer_t *ed)
 int
 append_script_file (char *fn, ed_buffer_t *ed)
 {
+  STAT_T sb;
   FILE *fp;
   char *filename;
   size_t fp_size = 0;
@@ -781,6 +782,20 @@ append_script_file (char *fn, ed_buffer_t *ed)
         strcpy (ed->exec->file_script, filename);
       }
 
+  if (ed->exec->opt & RESTRICTED && filename == fn)
+    {
+      if (!strcmp (fn, "..") || strchr (fn, '/'))
+        {
+          ed->exec->err = _("Access restricted to working directory");
+          return ERR;
+        }
+      if (STAT (fn, &sb) == 0 && !S_ISREG (sb.st_mode))
+        {
+          ed->exec->err = _("Access restricted to regular files");
+          return ERR;
+        }
+    }
+
   if (!(fp = fopen (filename, "r")))
     {
       fprintf (stderr, "%s: %s\n", filename, strerror (errno));
-- 
2.43.0


From 56c5f64395680f2eddf7eba2f7a531907750d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 67/82] fix: refuse shell commands in file lists of restricted
 editor

~r, ~e, ~w, ~f with a list whose later (or escaped first) name starts
with an exclamation point, or a pattern that matches such a file name,
ran the rest of the name in a shell under red.
---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 3775bb7..c400869 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -591,6 +591,13 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   char *s;
   size_t len;
 
+  /* File name from list or pattern may be a shell command. */
+  if (ed->exec->opt & RESTRICTED && *name == '!')
+    {
+      ed->exec->err = _("Shell access restricted");
+      return NULL;
+    }
+
   /* Push file name onto command buffer. Append newline if missing. */
   len = strlen (ed->input = (char *) name);
   if (!len || name[len - 1] != '\n')
-- 
2.43.0


From ea981814f6607fd61e032ea3bf25e17b25d90fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 68/82] fix: keep whole file list when another file is edited

e FILE after ~en made the current position the start of the list: files
before it were no longer in the list, and the next ~e or ~f freed a
pointer into the middle of the list.
---
 src/exec.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 07d845f..aa720f2 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -497,7 +497,6 @@ E_cmd (ed_buffer_t *ed)
   off_t size = 0;
   size_t len = 0;
   char *fn = NULL;
-  int cx = 0;
   int cy = 0;
   int is_default = 0;
   int status = 0;               /* Return status */
@@ -517,7 +516,6 @@ E_cmd (ed_buffer_t *ed)
       return ERR;
     }
   SKIP_WHITESPACE (ed);
-  cx = *ed->input;
   FILE_NAME (fn, len, cy, 1, 0, ed);
 
   spl1 ();
@@ -539,7 +537,7 @@ E_cmd (ed_buffer_t *ed)
   reset_undo_queue (ed);
   reset_global_queue (ed);
 
-  init_ed_command (cx != '\n', ed);
+  init_ed_command (0, ed);
   init_ed_state (0, &ed->state[0]);
   init_ed_state (-1, &ed->state[1]);
   spl0 ();
-- 
2.43.0


From a3d5d9cebec3d411b71e3ed2be9119774badea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 69/82] fix: forget file list freed for one that has too many
 names

Without default file name, ~r or ~w with a pattern that matches several
files failed with the list already freed but still in use.
---
 src/parse.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index c400869..b9b7956 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -345,6 +345,16 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
           if (uniquely && gp->gl_pathc > 1)
             {
               ed->exec->err = _("Too many file names");
+
+              /* Reinitialize ed->file->glob/list to known state. */
+              if (gp == ed->file->list)
+                {
+                  globfree (gp);
+                  gp->gl_offs = 0;
+                  gp->gl_pathc = 0;
+                  gp->gl_pathv = NULL;
+                  *ed->file->glob = *gp;
+                }
               return NULL;
             }
         }
-- 
2.43.0


From d3c0af11cf754354b528dfb5bcb8061971e4e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 70/82] fix: no pointer arithmetic on file list that is not set

~e after a list that could not be expanded.
---
 src/parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index b9b7956..0f34dc2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -396,8 +396,11 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
         gp = ed->file->glob;
 
         /* Command `~e' with no arguments rewinds file list. */
-        ed->file->list->gl_pathc += offs;
-        ed->file->list->gl_pathv -= offs;
+        if (offs)
+          {
+            ed->file->list->gl_pathc += offs;
+            ed->file->list->gl_pathv -= offs;
+          }
         offs = 0;
 
         /* Return default file name if file list empty. */
-- 
2.43.0


From aa814d61ed89f6d36df73df29f3ae4c9d1d4bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 71/82] fix: print no file name if list starts with empty one

ed -v '' and ~e.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index aa720f2..cadf94e 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -573,7 +573,7 @@ E_cmd (ed_buffer_t *ed)
       if ((status = read_file (is_default ? ed->file->name : "/dev/null",
                                0, &addr, &size, is_default, ed)) < 0)
         return status;
-      if (ed->file->is_glob && ed->exec->opt & VERBOSE)
+      if (ed->file->is_glob && ed->exec->opt & VERBOSE && ed->file->name)
         puts (ed->file->name);
     }
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
-- 
2.43.0


From 648cf6e8c2880dac4a9d63b429a5f8757de5e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 72/82] fix: move and copy lines in POSIX and traditional modes

With -G or POSIXLY_CORRECT, m and t were refused as unknown commands.
---
 src/exec.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index cadf94e..287d3b5 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -333,14 +333,15 @@ exec_command (ed_buffer_t *ed)
   /* Validate command prefix, if any. */
   switch (c = *ed->input++)
     {
-    case 'm':
-    case 't':
 #ifdef WANT_ED_MACRO
     case '@':
-#endif
       if (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
         return invalid_cmd (ed);
-      else if (ed->file->is_glob)
+      /* FALLTHROUGH */
+#endif
+    case 'm':
+    case 't':
+      if (ed->file->is_glob)
         {
           ed->exec->err = _("Command prefix unexpected");
           return ERR;
-- 
2.43.0


From e513fb382d2f000e04755719439f0efc303ba6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 73/82] fix: resume the command list of g after a file name
 from a pattern

is_valid_name parses the name by pushing it onto the command buffer, and
left the buffer at the end of the name, so the commands after `~r', `~w'
or `~f' in a global command list were lost.
---
 src/parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 0f34dc2..ef06f7b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -601,6 +601,7 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   static char *fn;
   static size_t fn_size;
 
+  char *input = ed->input;
   char *s;
   size_t len;
 
@@ -619,7 +620,11 @@ is_valid_name (const char *name, ed_buffer_t *ed)
       strcpy (ed->input = fn, name);
       strcpy (fn + len, "\n");
     }
-  if ((s = file_name (&len, ed)) && strcmp (name, s))
+  s = file_name (&len, ed);
+
+  /* Resume command list, if any, after the file name pattern. */
+  ed->input = input;
+  if (s && strcmp (name, s))
     {
       ed->exec->err = _("Invalid file name");
       return NULL;
-- 
2.43.0


From 15b8ad0c5fde495de650a613935b4a51154b2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 74/82] fix: announce only the first file of the command line
 as such

When the first file could not be read, the flag that makes `r' print the
name of the file stayed set, so every later `r' printed the default file
name.
---
 src/main.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index ff98b78..4b9e7ee 100644
--- a/src/main.c
+++ b/src/main.c
@@ -315,10 +315,13 @@ top:
   if (ed->file->list->gl_pathc)
     {
       /* Open file. */
-      if ((status = next_edit (status, ed)) < 0
-          || (status = exec_command (ed)) < 0)
-        goto error;
+      if ((status = next_edit (status, ed)) >= 0)
+        status = exec_command (ed);
+
+      /* Even if not read, any other file is not the first. */
       ed->exec->opt &= ~PRINT_FIRST_FILE;
+      if (status < 0)
+        goto error;
 
 #ifdef WANT_SCRIPT_FLAGS
       if (ed->exec->opt & IN_PLACE && ed->file->suffix
-- 
2.43.0


From b08a83b1232a3478ca9e5b9475999ce289e92feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 75/82] fix: with option -i, `~wn' and `~wp' read the current
 file again

The status of saving the file replaced the one that says which file to
edit next, so the main loop ran `r FILE' with the current file and
appended it to the buffer.
---
 src/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4b9e7ee..3cbf256 100644
--- a/src/main.c
+++ b/src/main.c
@@ -95,6 +95,9 @@ main (int argc, char **argv)
   int argc_prev = 0;
   int c;
   int status = 0;
+#if defined(WANT_FILE_GLOB) && defined(WANT_SCRIPT_FLAGS)
+  int save_status = 0;
+#endif
   int signal_status = 0;
 
   if ((ed = alloc_ed_buffer ()) == NULL)
@@ -399,9 +402,13 @@ top:
           if (!(ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)))
             {
 # ifdef WANT_SCRIPT_FLAGS
+              /* Keep status: it says which file is next. */
               if (ed->exec->opt & IN_PLACE
-                  && ((status = save_edit (status, ed)) < 0))
-                goto error;
+                  && (save_status = save_edit (status, ed)) < 0)
+                {
+                  status = save_status;
+                  goto error;
+                }
 # endif
 
               goto next;
-- 
2.43.0


From 8c6053fb77d5046208ce85c0b5919470b9fe8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 76/82] fix: script with several files fails in plain modes

At the end of the script the next file is opened with `~En', which
POSIXLY_CORRECT and -G do not have, so that ed printed `?' and exited
with status 4.  As in any other use of these modes, edit one file.
---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3cbf256..6efadf7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -424,7 +424,8 @@ top:
 #endif
 
           /* Command-line files still available and stdin seekable... */
-          if (ed->file->list->gl_offs && ed->file->list->gl_pathc > 1
+          if (!(ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
+              && ed->file->list->gl_offs && ed->file->list->gl_pathc > 1
               && FSEEK(stdin, 0L, SEEK_SET) != -1)
             {
               status = EOF_NEXT;
-- 
2.43.0


From cf88bf0665d8134f7754e0070752d7bcc76211a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 77/82] fix: argument `+' is read past its end

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6efadf7..018026e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -496,7 +496,7 @@ collect_address_args (int *argc_p, char **argv, ed_buffer_t *ed)
       char *regexp_parsed = NULL;
       size_t regexp_size = 0;
       size_t regexp_len = 0;
-      size_t argv_len = strlen (argv[i] + 2);
+      size_t argv_len = argv[i][1] ? strlen (argv[i] + 2) : 0;
       int delim = argv[i][1];
 
       switch (argv[i][1])
-- 
2.43.0


From 2dcaba3d42edd1e987aa02594a9b5dbf5c94a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 78/82] fix: usage, help and version leave the script buffer
 behind

Options -e and -f open a scratch file as they are parsed; when a later
option is -h, -V or unusable, ed_usage exited without removing it.
---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 018026e..c9ec424 100644
--- a/src/main.c
+++ b/src/main.c
@@ -910,7 +910,10 @@ for a tutorial introduction to ed.\n\
 Please submit issues or pull requests to: <https://github.com/slewsys/ed>\n"));
 #endif  /* !WANT_SCRIPT_FLAGS */
     }
-  exit (status);
+
+  /* Options `-e' and `-f' may already have opened a script buffer. */
+  (void) fflush (stdout);
+  quit (status, ed);
 }
 
 
-- 
2.43.0


From 79546a8e95aa36d0ecfa1a3b7de9bbce7575e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 79/82] fix: end of an encrypted file lost after an empty line

Decrypting the last block reads up to end-of-file, so an empty line in
that block was taken for the end of the stream, and it and all following
lines were dropped.
---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index cd9216e..5f75e87 100644
--- a/src/io.c
+++ b/src/io.c
@@ -548,7 +548,9 @@ get_stream_line (FILE *fp, size_t *len, int cipher, ed_buffer_t *ed)
       REALLOC_THROW (tb, tb_size, *len + 1, NULL, ed);
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
-  if (feof (fp))
+
+  /* A decrypted stream is at EOF before its last block is used up. */
+  if (c == EOF && feof (fp))
     {
       if (!*len)
 
-- 
2.43.0


From df25bf74462a34bc90f5feec0dce81b66bd779dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 80/82] fix: characters that are no digits accepted in a key

strtol(3) need not set EINVAL when there are no digits, so that any
character of a binary or hexadecimal key that is not a digit was taken
as 0.
---
 src/cbc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index c173e63..961a2a0 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -154,13 +154,13 @@ static int
 char_to_int (int c, int radix)
 {
 # ifdef HAVE_STRTOL
-  static int s[2] = { 0 };
-
+  char s[2] = { 0 };
+  char *endp;
   long n;
 
   s[0] = c;
-  errno = 0;
-  return (n = strtol ((char *)s, NULL, radix)) == 0 && errno == EINVAL ? -1 : n;
+  n = strtol (s, &endp, radix);
+  return endp == s ? -1 : n;
 # else  /* !HAVE_STRTOL */
   switch (c)
     {
-- 
2.43.0


From dbd6105f0083c1590598191bd0b610d924c2bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 81/82] fix: with option -x and no terminal, start of the
 script is lost

getpass(3) then reads the key from standard input, which was still
buffered, so that whatever came with the key was never read.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index c9ec424..26ca3b9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -194,6 +194,10 @@ top:
         break;
 #ifdef WANT_ED_ENCRYPTION
       case 'x':
+
+        /* Without a terminal the key is the first line of standard
+           input, of which no more may be read - see init_stdio (). */
+        SETVBUF (stdin, NULL, _IONBF, 0);
         if (get_des_keyword (ed) < 0)
           script_die (3, ed);
         break;
-- 
2.43.0


From 670e39f60cc649f9992b88c0abd8759a79778a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 82/82] fix: newline after form feed at end of page printed on
 its first line

---
 src/page.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index ee269db..96c867a 100644
--- a/src/page.c
+++ b/src/page.c
@@ -688,7 +688,18 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
         }
     }
 
-  if (!(ed->display->io_f & LIST) && !fb->rem_chars)
+  /*
+   * If form feed at end of line filled the page, then row_i already
+   * refers to the first row, but newline belongs to the last.
+   */
+  if (form_feed && fb->is_full && !fb->rem_chars)
+    {
+      n = fb->row_i;
+      fb->row_i = (n + fb->rows - 2) % (fb->rows - 1);
+      FB_PUTS ("\n", fb, ed);
+      fb->row_i = n;
+    }
+  else if (!(ed->display->io_f & LIST) && !fb->rem_chars)
     FB_PUTS ("\n", fb, ed);
   else if (ed->display->io_f & LIST && !fb->rem_chars)
     {
-- 
2.43.0

