From eb2e9b6858b1e6c0fc39f053fbcd733993583df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 01/82] fix: display lines that are not valid UTF-8 instead of
 overrunning them

---
 src/page.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..3706218 100644
--- a/src/page.c
+++ b/src/page.c
@@ -479,7 +479,8 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
    : (*s) == '\r' ? -(c)                                                      \
    : (*s) == '\t' ? TAB_WIDTH - ((c) - ((c) / TAB_WIDTH) * TAB_WIDTH)         \
    : ((unsigned char) *s) < '\040' ? 0                                        \
-   : ed->state->is_utf8 ? utf8_char_display_width (s, len)                    \
+   : (ed->state->is_utf8 && utf8_char_display_width (s, len) >= 0)            \
+   ? utf8_char_display_width (s, len)                                         \
    : 1)
 
 /* FB_PUTS: Add string, s, to frame buffer. */
@@ -578,7 +579,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
      * XXX: For multibyte streams, adjust fb->rem_chars upward.
      * See test zb7.tso.
      */
-    while (utf8_strlen (s, fb->rem_chars) == ERR)
+    while (fb->rem_chars < lp->len - (ed->display->io_f & OFFB
+                                      ? fb->row[fb->row_i]->offset : 0)
+           && utf8_strlen (s, fb->rem_chars) == ERR)
       ++fb->rem_chars;
 
   /* Offset of paged line if form feed (\f) is split across pages. */
@@ -667,7 +670,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           col = 0;
         }
 
-      csize = ed->state->is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1;
+      if (!ed->state->is_utf8
+          || (csize = utf8_char_size (s, fb->rem_chars)) < 1)
+        csize = 1;
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
@@ -707,8 +712,11 @@ fb_putwc (char *s, size_t len, ed_frame_buffer_t *fb, ed_buffer_t *ed)
   ed_frame_node_t *rp = fb->row[fb->row_i];
   size_t i;
 
-  if ((i = utf8_char_size (s, len)) == 0)
-    return ERR;
+  /* Print bytes that don't constitute a UTF-8 character individually. */
+  if (utf8_char_size (s, len) > 0)
+    i = utf8_char_size (s, len);
+  else
+    i = 1;
 
   REALLOC_THROW (rp->text, rp->text_size, rp->text_i + i, ERR, ed);
 
-- 
2.43.0


From dfbe88c4b611235885427e71e1756e7bc6f66b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 02/82] fix: empty insert into an empty buffer must not set dot
 past the last line

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 08d95eb..6034172 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -788,7 +788,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->exec->region->end, ed->state->lines);
   return ed->display->io_f;
 }
 
-- 
2.43.0


From 8cb6cc32ecc8f56333e0ae32d1ea9df27758649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 03/82] fix: global commands must visit every marked line that
 was not itself moved or deleted

---
 src/glbl.c | 62 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index b5cdac5..5acb18a 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -206,50 +206,52 @@ next_global_node (ed_buffer_t *ed)
 void
 reset_global_queue (ed_buffer_t *ed)
 {
+  ed_global_node_t *gp;
+
   /* Assert: spl1 () */
 
-  delete_global_nodes (ed->core->global_head->q_forw->lp,
-                       ed->core->global_head->lp, ed);
+  while ((gp = ed->core->global_head->q_forw) != ed->core->global_head)
+    {
+      UNLINK_NODE (gp);
+      free (gp);
+    }
 }
 
 
-/* SEEK_GLOBAL_LINE: Seek global line node between min and max. */
-#define SEEK_GLOBAL_LINE(global, head, min, max)                              \
-  do                                                                          \
-    {                                                                         \
-      global = head;                                                          \
-      while (global->lp != min                                                \
-             && (global = global->q_forw) != ed->core->global_head)           \
-        ;                                                                     \
-      if (global->lp == min || min == max)                                    \
-        break;                                                                \
-      min = min->q_forw;                                                      \
-    }                                                                         \
-  while (1)
-
-
 /* delete_global_nodes: Delete range of global nodes, excluding end. */
 void
 delete_global_nodes (const ed_line_node_t *begin, const ed_line_node_t *end,
                      ed_buffer_t *ed)
 {
-  ed_line_node_t *first = (ed_line_node_t *) begin;
-  ed_line_node_t *last = (ed_line_node_t *) end;
-  ed_global_node_t *from, *to, *next;
-
-  /* Assert: get_line_node_address (first) <= get_line_node_address (last) */
+  const ed_line_node_t *lp;
+  ed_global_node_t *head = ed->core->global_head;
+  ed_global_node_t *gp = head->q_forw;
+  ed_global_node_t *last, *next;
 
-  SEEK_GLOBAL_LINE (from, ed->core->global_head, first, last);
-
-  if (first != last)
-    SEEK_GLOBAL_LINE (to, from->q_forw, last, ed->core->line_head);
+  /* Assert: get_line_node_address (begin) <= get_line_node_address (end) */
 
   /* Assert: spl1 () */
 
-  for (; from != ed->core->global_head && from->lp != last; from = next)
+  /*
+   * Lines may have been moved since the queue was built, so its order
+   * need not be that of the buffer: look up each line, resuming where
+   * the previous one was found.
+   */
+  for (lp = begin; lp != end && head->q_forw != head; lp = lp->q_forw)
     {
-      next = from->q_forw;
-      UNLINK_NODE (from);
-      free (from);
+      last = gp;
+      do
+        {
+          next = gp->q_forw;
+          if (gp != head && gp->lp == lp)
+            {
+              UNLINK_NODE (gp);
+              free (gp);
+              gp = next;
+              break;
+            }
+          gp = next;
+        }
+      while (gp != last);
     }
 }
-- 
2.43.0


From a24b07e5f0c60904425cc7d2feafaeca1096e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 04/82] fix: report a write error that only shows when output
 is flushed

---
 src/io.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..b7913bb 100644
--- a/src/io.c
+++ b/src/io.c
@@ -741,8 +741,15 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
 
+  /* Don't report buffered data as written unless it really was. */
+  if (fflush (fp) == EOF || ferror (fp))
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
+      clearerr (fp);
+      return ERR;
+    }
   return 0;
 }
 
-- 
2.43.0


From e2a31afd801125a64c61dc7500167c3f583fb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 05/82] fix: don't close or reuse the default file's handle
 behind its back

---
 src/io.c | 58 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/io.c b/src/io.c
index b7913bb..3f832aa 100644
--- a/src/io.c
+++ b/src/io.c
@@ -591,9 +591,31 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   if (get_inode (fn, &inode, ed) < 0)
     return ERR;
 
-  /* File already open and writable. */
+  /*
+   * XXX Potential race: Reopening file for writing may lose lock.
+   *
+   * File-locking requires file write access, so this case should not
+   * be reached.
+   */
   if ((file_already_open = (inode && inode == ed->file->inode))
-      && ed->file->is_writable)
+      && !ed->file->is_writable)
+    {
+      spl1 ();
+      file_already_open = 0;
+      status = fclose (ed->file->handle);
+      ed->file->handle = NULL;
+      ed->file->inode = 0;
+      spl0 ();
+      if (status < 0)
+        {
+          fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+          ed->exec->err = _("File close error");
+          return ERR;
+        }
+    }
+
+  /* File already open and writable. */
+  if (file_already_open)
     {
       if (FSEEK (fp = ed->file->handle, 0L,
                  *mode == 'a' ? SEEK_END : SEEK_SET) == -1)
@@ -610,20 +632,6 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
           return ERR;
         }
     }
-
-  /*
-   * XXX Potential race: Reopening file for writing may lose lock.
-   *
-   * File-locking requires file write access, so this case should not
-   * be reached.
-   */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
 #endif  /* WANT_FILE_LOCK */
@@ -648,13 +656,27 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
     }
 #endif  /* WANT_FILE_LOCK */
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+      /* Don't leave unwritten data behind for a later write to flush. */
+#ifdef WANT_FILE_LOCK
+      spl1 ();
+      if (fp == ed->file->handle)
+        {
+          ed->file->handle = NULL;
+          ed->file->inode = 0;
+        }
+      spl0 ();
+#endif
+      (void) fclose (fp);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
 
+  /* Keep default file open - it might be known by another name. */
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From f7dc51e683d5e6d2095266a7e2c2278c98525af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 06/82] fix: release files and commands that could not be read

---
 src/io.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/io.c b/src/io.c
index 3f832aa..b1db98b 100644
--- a/src/io.c
+++ b/src/io.c
@@ -106,7 +106,7 @@ read_file (const char *fn, off_t after, off_t *addr,
       spl1 ();
       ed->file->inode = inode;
       ed->file->handle = fp;
-      ed->file->is_writable = !read_only;
+      ed->file->is_writable = !read_only && !unlockable;
       spl0 ();
     }
 
@@ -122,7 +122,13 @@ read_file (const char *fn, off_t after, off_t *addr,
 
 
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+#ifdef WANT_FILE_LOCK
+      if (fp != ed->file->handle)
+#endif
+        (void) fclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   if (read_only
@@ -136,7 +142,7 @@ read_file (const char *fn, off_t after, off_t *addr,
     fprintf (stderr, (ed->exec->opt & VERBOSE
                       ? "%s: Exclusive lock not set\n" : ""), fn);
 
-  if (!is_default)
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
@@ -167,7 +173,10 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+      (void) pclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   /* Ignore "no child" error. */
-- 
2.43.0


From 0e3f432b95f2b22b1d6252cd0ba8dbc7d8926273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 07/82] fix: writing to a command that stops reading must not
 kill the editor

---
 src/io.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index b1db98b..119834f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -29,6 +29,7 @@
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
 static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
+static void broken_pipe (int);
 
 
 /* read_file: Read file to buffer; return line count. */
@@ -697,6 +698,14 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
 }
 
 
+/* broken_pipe: Let write(2) fail with EPIPE. */
+static void
+broken_pipe (int signo)
+{
+  (void) signo;
+}
+
+
 /* write_pipe: Write buffer range to pipe; return status. */
 int
 write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
@@ -705,22 +714,34 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
   FILE *fp;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
+  signal_t handler;
   int status;
 
+  /*
+   * A command need not read its input: don't let that kill the editor.
+   * NB: A handler, unlike SIG_IGN, is not inherited by the command.
+   */
+  handler = signal (SIGPIPE, broken_pipe);
   if (!(fp = popen (fn + 1, "w")))
     {
       fprintf (stderr, "%s: %s\n", fn, strerror (errno));
       ed->exec->err = _("File open error");
+      signal (SIGPIPE, handler);
       return ERR;
     }
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+      (void) pclose (fp);
+      signal (SIGPIPE, handler);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
 
   /* Ignore "no child" error. */
   pclose (fp);
+  signal (SIGPIPE, handler);
   printf (ed->exec->opt & SCRIPTED ? "" : "!\n");
   return 0;
 }
-- 
2.43.0


From d640c8f57276fa14875b58a0ea40b93d370873a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 08/82] fix: keep signals out of child processes and lines out
 of harm's way when filtering

---
 src/aux.c  | 154 +++++++++++++++++++++++++++++------------------------
 src/cmds.c |   4 ++
 2 files changed, 89 insertions(+), 69 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 187027f..4490c03 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -8,42 +8,22 @@
 #include "ed.h"
 
 #if defined (HAVE_FORK) && defined (WANT_EXTERNAL_FILTER)
-# define WAITPID()                                                            \
-  do                                                                          \
-    {                                                                         \
-      pid_t any_pid;                                                          \
-      int pid_status = 0;                                                     \
-      int saved_pid_status = 0;                                               \
-      int waiting = write_pid == -1 ? 1 : 2;                                  \
-                                                                              \
-      while (waiting)                                                         \
-        if ((any_pid = waitpid (-1, &pid_status, 0)) < 0)                     \
-          {                                                                   \
-            if (errno != EINTR)                                               \
-              {                                                               \
-                fprintf (stderr, "%s\n", strerror (errno));                   \
-                ed->exec->err = _("Child process error");                     \
-                status = ERR;                                                 \
-                goto end;                                                     \
-              }                                                               \
-            errno = 0;                                                        \
-          }                                                                   \
-        else                                                                  \
-          {                                                                   \
-            if (any_pid == shell_pid)                                         \
-              saved_pid_status = pid_status;                                  \
-            --waiting;                                                        \
-          }                                                                   \
-                                                                              \
-      if (WIFEXITED (saved_pid_status) && WEXITSTATUS (saved_pid_status))     \
-        {                                                                     \
-          snprintf (exit_status, sizeof exit_status, _("Exit status: %#x"),   \
-                    WEXITSTATUS (saved_pid_status));                          \
-          ed->exec->err = exit_status;                                        \
-        }                                                                     \
-    end:                                                                      \
-    }                                                                         \
-  while (0)
+/* wait_child: Wait for a child process; return status. */
+static int
+wait_child (pid_t pid, int *pid_status, ed_buffer_t *ed)
+{
+  while (waitpid (pid, pid_status, 0) < 0)
+    {
+      if (errno != EINTR)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("Child process error");
+          return ERR;
+        }
+      errno = 0;
+    }
+  return 0;
+}
 
 
 /*
@@ -55,12 +35,13 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
 {
   static char exit_status[BUFSIZ];
 
-  FILE *ipp, *opp;
+  FILE *ipp, *opp = NULL;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
-  pid_t shell_pid, write_pid;
+  pid_t shell_pid = -1, write_pid = -1;
   off_t size = 0;
   int ip[2], op[2];
+  int pid_status = 0;
   int status = 0;
 
   /* Flush any buffered I/O. */
@@ -74,12 +55,25 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
    * Create two pipes: one for writing to the shell command and
    * another for reading from it.
    */
-  if (pipe (ip) < 0 || pipe (op) < 0)
+  if (pipe (ip) < 0)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
       return ERR;
     }
+  if (pipe (op) < 0)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("Pipe open error");
+      close (ip[0]), close (ip[1]);
+      return ERR;
+    }
+
+  /*
+   * Defer signals until both children exist: a child must not run the
+   * editor's signal handlers.
+   */
+  spl1 ();
 
   /* Create first child process for shell command. */
   switch (shell_pid = fork ())
@@ -89,8 +83,8 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       ed->exec->err = _("Fork error");
       close (ip[0]), close (ip[1]);
       close (op[0]), close (op[1]);
-      status = ERR;
-      goto err;
+      spl0 ();
+      return ERR;
     case 0:
       /* Reset signals for shell. */
       signal (SIGINT, SIG_DFL);
@@ -114,42 +108,30 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       /* NOTREACHED */
     }
 
-  /* Close write end of pipe op, op[1], so that EOF is seen. */
-  close (op[1]);
-
-  spl1 ();
-  if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
-    {
-      kill (shell_pid, SIGINT);
-      spl0 ();
-      goto err;
-    }
-
-  /* If filtering entire file, reset state. */
-  if (ed->state->lines == 0)
-    {
-      ed->state->is_binary = 0;
-      ed->state->is_empty = 1;
-    }
-  spl0 ();
-
-  /* Create second child process for writing to shell command. */
+  /*
+   * Create second child process for writing to shell command -- before
+   * deleting any lines, in case that fails.
+   */
   switch (write_pid = fork ())
     {
     case -1:
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
-      (void) close (ip[1]);
-      (void) close (op[0]);
+      kill (shell_pid, SIGINT);
+      close (ip[0]), close (ip[1]);
+      close (op[0]), close (op[1]);
       status = ERR;
+      spl0 ();
       goto err;
     case 0:
+      signal (SIGHUP, SIG_DFL);
+      signal (SIGINT, SIG_DFL);
 
       /*
        * Close unused pipe ends, then open and write to shell
        * process's standard input.
        */
-      if (close (ip[0]) < 0 || close (op[0]) < 0
+      if (close (ip[0]) < 0 || close (op[0]) < 0 || close (op[1]) < 0
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
@@ -163,22 +145,46 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       _exit (status < 0 ? 127 << 8 : 0);
     }
 
-  /* Close unused pipe ends, then open shell process's standard output. */
-  if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
+  /*
+   * Close unused pipe ends, in particular write end of pipe op, op[1],
+   * so that EOF is seen.
+   */
+  close (op[1]), close (ip[0]), close (ip[1]);
+
+  if (!(opp = fdopen (op[0], "r")))
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
+      close (op[0]);
       status = ERR;
+      spl0 ();
       goto err;
     }
 
+  if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
+    {
+      kill (shell_pid, SIGINT);
+      spl0 ();
+      goto err;
+    }
+
+  /* If filtering entire file, reset state. */
+  if (ed->state->lines == 0)
+    {
+      ed->state->is_binary = 0;
+      ed->state->is_empty = 1;
+    }
+  spl0 ();
+
   /* Read standard output of shell process via reentrant read_stream. */
   if ((status = read_stream_r (opp, ed->state->dot, &size, ed)) < 0)
     goto err;
 
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
 
-  if (fclose (opp) < 0)
+  status = fclose (opp);
+  opp = NULL;
+  if (status < 0)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe close error");
@@ -187,8 +193,18 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     }
 
  err:
-  if (shell_pid != -1)
-    WAITPID ();
+  if (opp)
+    (void) fclose (opp);
+  if (write_pid != -1 && wait_child (write_pid, &pid_status, ed) < 0)
+    status = ERR;
+  if (wait_child (shell_pid, &pid_status, ed) < 0)
+    status = ERR;
+  else if (WIFEXITED (pid_status) && WEXITSTATUS (pid_status))
+    {
+      snprintf (exit_status, sizeof exit_status, _("Exit status: %#x"),
+                WEXITSTATUS (pid_status));
+      ed->exec->err = exit_status;
+    }
   return status;
 }
 #endif  /* defined (HAVE_FORK) && defined (WANT_EXTERNAL_FILTER) */
diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..229ac1f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -311,11 +311,14 @@ system_shell (const char *sc, ed_buffer_t *ed)
   int wstatus;
   pid_t shell_pid;
 
+  /* Defer signals: the child must not run the editor's handlers. */
+  spl1 ();
   switch (shell_pid = vfork ())
     {
     case -1:
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
+      spl0 ();
       status = ERR;
       goto err;
     case 0:
@@ -331,6 +334,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
 
       /* NOTREACHED */
     }
+  spl0 ();
 
   while (waitpid (shell_pid, &wstatus, 0) < 0)
     if (errno != EINTR)
-- 
2.43.0


From df7ef1d142b40101895bf6a95d9b20b56da984f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 09/82] fix: keep buffer text in memory until the scratch file
 really has it

---
 src/buf.c | 103 ++++++++++++++++++++++++++++++++++--------------------
 src/ed.h  |   7 ++--
 2 files changed, 70 insertions(+), 40 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..f465be5 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -22,6 +22,7 @@ static int close_ed_buffer (ed_buffer_t *);
 static int create_disk_buffer (FILE **, char **, size_t *, ed_buffer_t *);
 static char **dup_argv (int, char **, ed_buffer_t *);
 static int init_core_buffer(ed_buffer_t *);
+static int save_buffer_text (ed_buffer_t *);
 
 /*
  * one_time_init: Open ed buffer file; initialize queues, I/O buffers
@@ -321,13 +322,40 @@ close_ed_buffer (ed_buffer_t *ed)
     }
   ed->core->fp = NULL;
   ed->core->offset = 0;
-  ed->core->seek_on_write = 0;
+  ed->core->end = 0;
+  ed->core->text_i = 0;
   if (ed->core->pathname)
     unlink (ed->core->pathname);
   return status;
 }
 
 
+/*
+ * save_buffer_text: Append text not yet saved to on-disk buffer. The
+ *   text is kept until it was written successfully. Return status.
+ */
+static int
+save_buffer_text (ed_buffer_t *ed)
+{
+  /* Assert: spl1 () */
+
+  if (!ed->core->text_i)
+    return 0;
+  ed->core->offset = -1;        /* Force seek on read. */
+  if (FSEEK (ed->core->fp, ed->core->end, SEEK_SET) == -1
+      || (fwrite (ed->core->text, sizeof (char), ed->core->text_i,
+                  ed->core->fp) != ed->core->text_i)
+      || fflush (ed->core->fp) == EOF)
+    {
+      clearerr (ed->core->fp);
+      return ERR;
+    }
+  ed->core->end += ed->core->text_i;
+  ed->core->text_i = 0;
+  return 0;
+}
+
+
 /* get_buffer_line: Return pointer to copy of line from buffer file. */
 char *
 get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
@@ -335,37 +363,47 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
   static char *tb = NULL;       /* Buffer for line from ed buffer file. */
   static size_t tb_size = 0;    /* Buffer size. */
 
+  /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
+  REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
+  *(tb + lp->len) = '\0';
+
   /* Permit writing the "contents" ('\n') of an empty buffer. */
   if (lp == ed->core->line_head)
+    return tb;
+
+  spl1 ();
+  if (lp->seek >= ed->core->end && save_buffer_text (ed) < 0)
     {
-      REALLOC_THROW (tb, tb_size, 1, NULL, ed);
-      tb[0] = '\0';
+      /* Text not saved is still in memory. */
+      memcpy (tb, ed->core->text + (lp->seek - ed->core->end), lp->len);
+      spl0 ();
       return tb;
     }
-  ed->core->seek_on_write = 1;         /* Force seek on write. */
 
   /* out of position */
-  if (ed->core->offset != lp->seek)
+  if (ed->core->offset != lp->seek
+      && FSEEK (ed->core->fp, lp->seek, SEEK_SET) == -1)
     {
-      ed->core->offset = lp->seek;
-      if (FSEEK (ed->core->fp, ed->core->offset, SEEK_SET) == -1)
-        {
-          fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
-          ed->exec->err = _("Buffer seek error");
-          return NULL;
-        }
+      fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
+      ed->exec->err = _("Buffer seek error");
+      ed->core->offset = -1;
+      spl0 ();
+      return NULL;
     }
 
-  /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
-  REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
+      clearerr (ed->core->fp);
+      ed->core->offset = -1;
+      spl0 ();
       return NULL;
     }
-  ed->core->offset += lp->len;  /* Update current offset in buffer file. */
-  *(tb + lp->len) = '\0';
+
+  /* Update current offset in buffer file. */
+  ed->core->offset = lp->seek + lp->len;
+  spl0 ();
   return tb;
 }
 
@@ -377,45 +415,34 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
 char *
 put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
 {
-  /*
-   * If ed buffer file was read since last write, seek to end of file
-   * before writing.
-   */
-  if (ed->core->seek_on_write)
-    {
-      if (FSEEK (ed->core->fp, 0L, SEEK_END) == -1
-          || (ed->core->offset = FTELL (ed->core->fp)) == -1)
-        {
-          fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
-          ed->exec->err = _("Buffer seek error");
-          return NULL;
-        }
-      ed->core->seek_on_write = 0;
-    }
-
   /* Assert: spl1 () */
 
   /* Assert: t has trailing '\n'. */
   --len;                        /* Don't write `\n'. */
 
   /* NB: We are testing buffer file here, not file it represents. */
-  if (ed->core->offset > OFF_T_MAX - len)
+  if (ed->core->end > OFF_T_MAX - (off_t) ed->core->text_i - (off_t) len)
     {
       ed->exec->err = _("Buffer full");
       return NULL;
     }
-  if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
+
+  /* Bound text not yet saved, so that a full disk can't go unnoticed. */
+  if (ed->core->text_i && ed->core->text_i + len > BUFSIZ
+      && save_buffer_text (ed) < 0)
     {
-      ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer write error");
       return NULL;
     }
-  if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
+  REALLOC_THROW (ed->core->text, ed->core->text_size,
+                 ed->core->text_i + len, NULL, ed);
+  if (!append_line_node (len, ed->core->end + ed->core->text_i,
+                         ed->state->dot, ed))
     return NULL;
-
+  memcpy (ed->core->text + ed->core->text_i, t, len);
+  ed->core->text_i += len;
   ++ed->state->dot;
-  ed->core->offset += len;      /* Update current offset in buffer file. */
   return (char *) t + ++len;
 }
 
diff --git a/src/ed.h b/src/ed.h
index 83828b7..9974758 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -413,8 +413,11 @@ struct ed_core
   FILE *fp;                     /* Pointer to on-disk buffer. */
   char *pathname;               /* Pathname of on-disk buffer. */
   size_t pathname_size;         /* Size of on-disk buffer pathname. */
-  off_t offset;                 /* Current offset of on-disk buffer. */
-  int seek_on_write;            /* If set, seek before writing. */
+  off_t offset;                 /* Current read offset of on-disk buffer. */
+  off_t end;                    /* End of text saved in on-disk buffer. */
+  char *text;                   /* Text not yet saved, from offset end. */
+  size_t text_size;             /* Size of memory allocated for text. */
+  size_t text_i;                /* Length of text not yet saved. */
 };
 
 /* Default display size. */
-- 
2.43.0


From 1ecf1256852d86d467ba61c2df7d0832d2f29aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 10/82] fix: don't leave a scratch file behind when it can't be
 set up

---
 src/buf.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index f465be5..3f0844d 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -254,7 +254,7 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
   size_t s_size = 0;
   size_t path_size = 0;
   int add_path_sep = 0;
-  int fd;
+  int fd = -1;
 
   if ((!(s = getenv ("TMPDIR")) || *s == '\0')
       && (!(s = _PATH_TMP) || *s == '\0'))
@@ -274,19 +274,27 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
   strcpy (*name + s_size, add_path_sep ? "/" : "");
   strcpy (*name + s_size + add_path_sep, template);
 
+  /* Don't let a signal orphan the new file. */
+  spl1 ();
+
   /* NB: Don't unlink(2) buffer upon opening in case it resides on NFS. */
 #ifndef HAVE_MKSTEMP
   if (!mktemp (*name)
       || (fd = open (*name, O_CREAT | O_EXCL | O_RDWR, 0600)) == -1
-      || FSTAT (fd, &sb) == -1
 #else
   if ((fd = mkstemp (*name)) == -1
-      || FSTAT (fd, &sb) == -1
 #endif /* mkstemp */
+      || FSTAT (fd, &sb) == -1
       || !(*fp = fdopen (fd, "w+")))
     {
       fprintf (stderr, "%s: %s\n", *name, strerror (errno));
       ed->exec->err = _("Buffer open error");
+      if (fd != -1)
+        {
+          (void) close (fd);
+          unlink (*name);
+        }
+      spl0 ();
       return ERR;
     }
 
@@ -302,8 +310,10 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s: Not a regular file\n", *name);
       ed->exec->err = _("Buffer open error");
+      spl0 ();
       return ERR;
     }
+  spl0 ();
   return 0;
 }
 
-- 
2.43.0


From 0fcc2afb0c82e33d3ade18032fc63f6af87be9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 11/82] fix: a line whose addition can't be undone must not be
 added

---
 src/buf.c  | 19 +++++++++++++++++++
 src/cmds.c |  5 +++--
 src/ed.h   |  2 ++
 src/sub.c  |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 3f0844d..23d23da 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -492,6 +492,25 @@ append_line_node (size_t len, off_t offset, off_t addr, ed_buffer_t *ed)
 }
 
 
+/*
+ * discard_last_line: Remove line just added at current address, because
+ *   adding it can't be recorded for undo.
+ */
+void
+discard_last_line (ed_buffer_t *ed)
+{
+  ed_line_node_t *lp = get_line_node (ed->state->dot, ed);
+
+  /* Assert: spl1 () */
+
+  /* This get_line_node last! */
+  get_line_node (--ed->state->dot, ed);
+  UNLINK_NODE (lp);
+  free (lp);
+  --ed->state->lines;
+}
+
+
 /* get_line_node: Return pointer to line node in the ed buffer. */
 ed_line_node_t *
 get_line_node (off_t n, ed_buffer_t *ed)
diff --git a/src/cmds.c b/src/cmds.c
index 229ac1f..15de1ca 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -153,6 +153,7 @@ join_lines (off_t from, off_t to, ed_buffer_t *ed)
   static size_t lj_size;        /* buffer size */
 
   ed_line_node_t *lp = get_line_node (from, ed);
+  ed_undo_node_t *up = NULL;
   off_t n = from ? to - from + 1 : 0;
   size_t len = 0;
   char *s;
@@ -174,12 +175,12 @@ join_lines (off_t from, off_t to, ed_buffer_t *ed)
       return ERR;
     }
   ed->state->dot = from - 1;
-  if (!put_buffer_line (lj, len, ed)
-      || !append_undo_node (UADD, ed->state->dot, ed->state->dot, ed))
+  if (!put_buffer_line (lj, len, ed))
     {
       spl0 ();
       return ERR;
     }
+  APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
diff --git a/src/ed.h b/src/ed.h
index 9974758..74fe004 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -698,6 +698,7 @@ enum search_type
         (up)->t = (lp);                                                       \
       else if (!((up) = append_undo_node (UADD, (addr), (addr), (ed))))       \
         {                                                                     \
+          discard_last_line (ed);                                             \
           spl0 ();                                                            \
           return ERR;                                                         \
         }                                                                     \
@@ -882,6 +883,7 @@ int append_script_file (char *, ed_buffer_t *);
 #endif
 
 ed_line_node_t *append_line_node (size_t, off_t, off_t, ed_buffer_t *);
+void discard_last_line (ed_buffer_t *);
 ed_text_node_t *append_text_node (ed_text_node_t *, const char *, size_t);
 
 #ifdef WANT_ED_REGISTER
diff --git a/src/sub.c b/src/sub.c
index 6298d7a..6acff82 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -407,8 +407,8 @@ substitute_lines (off_t from, off_t to, regex_t *re, off_t s_nth,
                   return ERR;
                 }
               mp = get_line_node (ed->state->dot, ed);
-              transfer_marks (mp, lp, ed);
               APPEND_UNDO_NODE (mp, up, ed->state->dot, ed);
+              transfer_marks (mp, lp, ed);
             }
           while (txt != eot);
           ++nsubs;
-- 
2.43.0


From 72998c27052e0a6c023e3a85f6941357cb8a5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 12/82] fix: don't record half of a move for undo when memory
 is exhausted

---
 src/cmds.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 15de1ca..0add54b 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -194,6 +194,7 @@ int
 move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
 {
   ed_line_node_t *b1, *a1, *b2, *a2;
+  ed_undo_node_t *up = NULL;
   off_t succ = INC_MOD (to, ed->state->lines);
   off_t prec = from - 1;
   int done = (after == from - 1 || after == to);
@@ -205,10 +206,16 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
       b2 = get_line_node (prec, ed);
       ed->state->dot = to;
     }
-  else if (!append_undo_node (UMOV, prec, succ, ed)
+  else if (!(up = append_undo_node (UMOV, prec, succ, ed))
            || !append_undo_node (UMOV, after,
                                  INC_MOD (after, ed->state->lines), ed))
     {
+      /* Undo nodes of a move come in pairs. */
+      if (up)
+        {
+          UNLINK_NODE (up);
+          free (up);
+        }
       spl0 ();
       return ERR;
     }
-- 
2.43.0


From d6e54c1c3078f93ab462b71a9ef576303ef00432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 13/82] fix: an interrupted read must leave the buffer marked
 modified, not empty

---
 src/io.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io.c b/src/io.c
index 119834f..468b962 100644
--- a/src/io.c
+++ b/src/io.c
@@ -187,8 +187,11 @@ read_pipe (const char *fn, off_t after, off_t *addr,
 }
 
 
-/* PUT_BUFFER_LINE: Add a line of text to the editor buffer. */
-#define PUT_BUFFER_LINE(lp, tb, len, up, addr)                                \
+/*
+ * PUT_BUFFER_LINE: Add a line of text to the editor buffer. State is
+ *   updated at once, in case the next line can't be read.
+ */
+#define PUT_BUFFER_LINE(lp, tb, len, up, addr, modifies)                      \
   do                                                                          \
     {                                                                         \
       spl1 ();                                                                \
@@ -199,6 +202,8 @@ read_pipe (const char *fn, off_t after, off_t *addr,
         }                                                                     \
       (lp) = (lp)->q_forw;                                                    \
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
+      ed->state->is_empty = 0;                                                \
+      ed->state->is_modified |= (modifies);                                   \
       spl0 ();                                                                \
     }                                                                         \
   while (0)
@@ -220,6 +225,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    * int newline_appended_already = ed->state->newline_appended;
    */
   int stream_appended = after == ed->state->lines;
+  int modifies = ed->state->lines > 0;
 
   ed->state->dot = after;
   ed->state->input_is_binary = 0;
@@ -231,7 +237,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 #endif
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
-    PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot);
+    PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot, modifies);
   if (feof (fp))
     {
       fflush (fp);
@@ -389,7 +395,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   /* Write stream input to buffer file. */
   while ((t = shift_text_node (&th, &len)))
     {
-      PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot);
+      PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot, 1);
       free (t);
     }
 
-- 
2.43.0


From 7e6f34b8b1e3595116b3d787bb62097ae1d6c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 14/82] fix: report failure to reopen the scratch file

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 6034172..805cd21 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -516,7 +516,7 @@ E_cmd (ed_buffer_t *ed)
     }
   reset_undo_queue (ed);
   reset_global_queue (ed);
-  if (reopen_ed_buffer (ed) < 0)
+  if ((status = reopen_ed_buffer (ed)) < 0)
     {
       spl0 ();
       return status;
-- 
2.43.0


From fe5a42a94275f8e423e95a63c61d101423390a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 15/82] fix: report errors writing to a register

---
 src/io.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 468b962..245270b 100644
--- a/src/io.c
+++ b/src/io.c
@@ -867,8 +867,14 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
           clearerr (dest_fp);
           return ERR;
         }
-      fflush (dest_fp);
       clearerr (src_fp);
+      if (fflush (dest_fp) == EOF)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File write error");
+          clearerr (dest_fp);
+          return ERR;
+        }
     }
   else if (ferror (src_fp))
     {
@@ -1050,7 +1056,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
@@ -1119,7 +1125,7 @@ inter_register_copy (int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-- 
2.43.0


From cf8413516d6dffd38b24f1e75a20f3d240e5a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 16/82] fix: don't block signals for good when memory is
 exhausted

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 23d23da..de3cf2b 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -730,7 +730,10 @@ append_text_node (ed_text_node_t *th, const char *tb, const size_t len)
 
   /* Allocate node to push onto text queue */
   if (!(tp = (ed_text_node_t *) malloc (ED_TEXT_NODE_T_SIZE)))
-    return NULL;
+    {
+      spl0 ();
+      return NULL;
+    }
   tp->text = (char *) tb;
   tp->text_i = len;
 
-- 
2.43.0


From 37db28b6b10f87e8667673ef36f4022f863b282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 17/82] fix: saving the buffer on hangup must not be
 interrupted

---
 src/signal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 6929962..817b163 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -54,6 +54,9 @@ handle_hup (int signo)
 
   if (!_sigactive)
     quit (1, ed);
+
+  /* Don't let another signal interrupt saving the buffer. */
+  spl1 ();
   _sigflags &= ~(1 << (signo - 1));
   if (ed->state->lines
       && write_file ("ed.hup", 0, 1, ed->state->lines,
-- 
2.43.0


From a53b5bc63676c919ef899561806d14d1a8089789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 18/82] fix: substitute in lines that are not valid UTF-8
 without overrunning them

---
 src/sub.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 6acff82..181828b 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -431,6 +431,12 @@ substitute_lines (off_t from, off_t to, regex_t *re, off_t s_nth,
 }
 
 
+/* TEXT_CHAR_SIZE: Size of character of text, which need not be UTF-8. */
+#define TEXT_CHAR_SIZE(s, len, ed)                                            \
+  ((ed)->state->is_utf8 && utf8_char_size ((s), (len)) > 0                    \
+   ? utf8_char_size ((s), (len)) : 1)
+
+
 /* substitute_matching: Replace text matched by a pattern according to
    a substitution template; return length of modified text. */
 static int
@@ -503,8 +509,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
         {
           if (!*txt)
             break;
-          if (!ed->state->is_utf8 || (j = utf8_char_size (txt, eot - txt)) == 0)
-            j = 1;
+          j = TEXT_CHAR_SIZE (txt, eot - txt, ed);
           REALLOC_THROW (rb, rb_size, *len + j, ERR, ed);
 #ifndef REG_STARTEND
           if (ed->state->is_binary)
@@ -539,9 +544,8 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
         {
           if (nil_next && !*txt)
             break;
-          if (!j && (!ed->state->is_utf8
-                     || (j = utf8_char_size (txt, eot - txt)) == 0))
-            j = 1;
+          if (!j)
+            j = TEXT_CHAR_SIZE (txt, eot - txt, ed);
           REALLOC_THROW (rb, rb_size, *len + j, ERR, ed);
 #ifndef REG_STARTEND
           if (ed->state->is_binary)
-- 
2.43.0


From 9eb0ce2a51824ec2c23db724617891aa6abd0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 19/82] fix: undoing a change after writing it leaves the
 buffer modified

---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 805cd21..2782c12 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1469,6 +1469,9 @@ w_cmd (ed_buffer_t *ed)
         {
           ed->state->is_modified = 0;
 
+          /* What the last command changed can be undone, but isn't saved. */
+          ed->state[1].is_modified = 1;
+
           /*
            * Per SUSv4, exit_status cannot be reset. We'll do it
            * anyhow ...
-- 
2.43.0


From e81eb19bb4a1b3f312ee451de7459cc5b4251e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 20/82] fix: don't let an interrupt leave the
 regular-expression matcher locked

---
 src/glbl.c | 12 ++++++++----
 src/re.c   | 10 ++++++++--
 src/sub.c  | 17 +++++++++++++++--
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index 5acb18a..9826130 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -24,6 +24,7 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
   off_t from = ed->exec->region->start;
   off_t to = ed->exec->region->end;
   off_t n = from ? to - from + 1 : 0;
+  int match;
   char dc = *ed->input;              /* pattern delimiting char */
   char *s;
 
@@ -46,14 +47,17 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
 #ifdef REG_STARTEND
       rm->rm_so = 0;
       rm->rm_eo = lp->len;
-      if ((!regexec (re, s, 0, rm, REG_STARTEND)) == want_match
-          && !append_global_node (lp, ed))
+      spl1 ();                  /* regexec (3) can't be interrupted. */
+      match = !regexec (re, s, 0, rm, REG_STARTEND);
+      spl0 ();
 #else
       if (ed->state->is_binary)
         NUL_TO_NEWLINE (s, lp->len);
-      if (!regexec (re, s, 0, NULL, 0) == want_match
-          && !append_global_node (lp, ed))
+      spl1 ();                  /* regexec (3) can't be interrupted. */
+      match = !regexec (re, s, 0, NULL, 0);
+      spl0 ();
 #endif  /* !REG_STARTEND */
+      if (match == want_match && !append_global_node (lp, ed))
         return ERR;
     }
   return 0;
diff --git a/src/re.c b/src/re.c
index 6ac2173..90dd4f8 100644
--- a/src/re.c
+++ b/src/re.c
@@ -245,6 +245,7 @@ get_matching_node_address (const regex_t *re, int dir, off_t *addr,
   regmatch_t rm[1];
   ed_line_node_t *lp;
   char *s;
+  int status;
 
   *addr = ed->state->dot;
   if (!re)
@@ -260,12 +261,17 @@ get_matching_node_address (const regex_t *re, int dir, off_t *addr,
 #ifdef REG_STARTEND
           rm->rm_so = 0;
           rm->rm_eo = lp->len;
-          if (!regexec (re, s, 0, rm, REG_STARTEND))
+          spl1 ();              /* regexec (3) can't be interrupted. */
+          status = regexec (re, s, 0, rm, REG_STARTEND);
+          spl0 ();
 #else
           if (ed->state->is_binary)
             NUL_TO_NEWLINE (s, lp->len);
-          if (!regexec (re, s, 0, NULL, 0))
+          spl1 ();              /* regexec (3) can't be interrupted. */
+          status = regexec (re, s, 0, NULL, 0);
+          spl0 ();
 #endif  /* !defined (REG_STARTEND) */
+          if (!status)
             return 0;
         }
     }
diff --git a/src/sub.c b/src/sub.c
index 181828b..ef21ee4 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -431,6 +431,19 @@ substitute_lines (off_t from, off_t to, regex_t *re, off_t s_nth,
 }
 
 
+/* exec_regex: Match text; regexec (3) itself can't be interrupted. */
+static int
+exec_regex (const regex_t *re, const char *txt, regmatch_t *rm, int eflag)
+{
+  int status;
+
+  spl1 ();
+  status = regexec (re, txt, re->re_nsub + 1, rm, eflag);
+  spl0 ();
+  return status;
+}
+
+
 /* TEXT_CHAR_SIZE: Size of character of text, which need not be UTF-8. */
 #define TEXT_CHAR_SIZE(s, len, ed)                                            \
   ((ed)->state->is_utf8 && utf8_char_size ((s), (len)) > 0                    \
@@ -498,7 +511,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 #endif
   for (*len = 0, eot = txt + lp->len, rm->rm_so = 0, rm->rm_eo = lp->len;
        (!changed || (s_f & GSUB))
-         && !regexec (re, txt, re->re_nsub + 1, rm, eflag);
+         && !exec_regex (re, txt, rm, eflag);
        txt += j, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
     {
       i = rm->rm_so, j = rm->rm_eo;
@@ -610,7 +623,7 @@ count_matches (const regex_t *re, const char *txt, int len,
     NUL_TO_NEWLINE (txt, len);
 #endif
   for (eot = txt + len, rm->rm_so = 0, rm->rm_eo = len;
-       !regexec (re, txt, re->re_nsub + 1, rm, eflag);
+       !exec_regex (re, txt, rm, eflag);
        txt += off, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
     {
       off = rm->rm_eo;
-- 
2.43.0


From 8bd67f61d6a0f7b0e66c6a4ba0d15e398d8de35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 21/82] fix: list every byte of a UTF-8 character

---
 src/page.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index 3706218..8f72ac9 100644
--- a/src/page.c
+++ b/src/page.c
@@ -670,7 +670,8 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           col = 0;
         }
 
-      if (!ed->state->is_utf8
+      /* The `l' command escapes each byte of a UTF-8 character. */
+      if (!ed->state->is_utf8 || ed->display->io_f & LIST
           || (csize = utf8_char_size (s, fb->rem_chars)) < 1)
         csize = 1;
     }
-- 
2.43.0


From a9b954ccd7808567abc99ac0e8b9cc9073ba9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 22/82] fix: don't run the rest of a global command's
 text-terminating line

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 0add54b..a2f5ae1 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -50,7 +50,7 @@ append_lines (off_t after, ed_buffer_t *ed)
         return 0;
       if (*ed->input == '.' && *(ed->input + 1) == '\n')
         {
-          ++ed->input;
+          ed->input += 2;
           return 0;
         }
 #ifdef WANT_ED_MACRO
-- 
2.43.0


From 03636c715fda19dfd00dcb31116a1d15e5f6563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 23/82] fix: a range of a binary buffer loses its last newline
 when written

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 245270b..8774879 100644
--- a/src/io.c
+++ b/src/io.c
@@ -774,7 +774,8 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
       if (!(s = get_buffer_line (lp, ed)))
         return ERR;
       len = lp->len;
-      append_newline = !(n == 1 && ed->state->is_binary
+      append_newline = !(lp->q_forw == ed->core->line_head
+                         && ed->state->is_binary
                          && ed->state->newline_appended);
       if (*size >= OFF_T_MAX - len - append_newline)
         {
-- 
2.43.0


From 0a90fe5033b5f087b751761216ece08de9ffe9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 24/82] fix: keep register lines apart and note of a missing
 newline when nothing is read

---
 src/io.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8774879..983cbbe 100644
--- a/src/io.c
+++ b/src/io.c
@@ -272,6 +272,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    *                        ? *size == ed->state->newline_missing : 0);
    */
   ed->state->is_empty = ed->state->is_empty && !*size;
+  stream_appended = stream_appended && *size;
 
   /*
    * A newline is appended to an empty file read into an empty buffer,
@@ -410,6 +411,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    *                        ? *size == ed->state->newline_missing : 0);
    */
   ed->state->is_empty = ed->state->is_empty && !*size;
+  stream_appended = stream_appended && *size;
 
   /* If stream_appended, then nl_prev == 0  ==> nl_prev && binary_prev == 0. */
   newline_inserted = (stream_appended
@@ -1030,6 +1032,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t size = 0;
   off_t n = from ? to - from + 1 : 0;
+  int newline_appended = ed->state->newline_appended;
   int status = 0;
 
   /* Nothing to write. */
@@ -1060,9 +1063,13 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
-  if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
-    return status;
-  return 0;
+  /* Lines in a register always end in newline, so it can be appended to. */
+  spl1 ();
+  ed->state->newline_appended = 0;
+  status = write_stream (write_fp, lp, n, &size, ed);
+  ed->state->newline_appended = newline_appended;
+  spl0 ();
+  return status;
 }
 
 
-- 
2.43.0


From 03b5d140fdbd0766005e39de3eabefe7feb85e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 25/82] fix: don't carry on after an interrupted write has lost
 buffered text

---
 src/io.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/io.c b/src/io.c
index 983cbbe..855aa14 100644
--- a/src/io.c
+++ b/src/io.c
@@ -819,7 +819,6 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 static int
 put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
 {
- top:
 #ifdef WANT_ED_ENCRYPTION
   for (; len && (ed->exec->have_key ? put_des_char ((unsigned) *s, fp)
                  : putc ((unsigned) *s, fp)) != EOF; --len, ++s)
@@ -827,19 +826,19 @@ put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
   for (; len && putc ((unsigned) *s, fp) != EOF; --len, ++s)
 #endif  /* !WANT_ED_ENCRYPTION */
     ;
+
+  /*
+   * If the stream can't be flushed, even if merely interrupted, then
+   * text buffered so far may be lost, so don't try to continue.
+   */
   if (ferror (fp))
-    switch (errno)
-      {
-      case EINTR:
-        clearerr (fp);
-        goto top;
-      default:
-        fprintf (stderr, "%s\n", strerror (errno));
-        ed->exec->err = _("File write error");
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
 
-        /* Propagate stream status - don't call clearerr(3). */
-        return ERR;
-      }
+      /* Propagate stream status - don't call clearerr(3). */
+      return ERR;
+    }
   return 0;
 }
 
-- 
2.43.0


From 9433c7971e02625b6326a6c7f1c7cf8d7312117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 26/82] fix: don't crash if the scratch file can't be reopened

---
 src/buf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index de3cf2b..dcd80b0 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -349,6 +349,9 @@ save_buffer_text (ed_buffer_t *ed)
 {
   /* Assert: spl1 () */
 
+  /* Buffer file couldn't be reopened before -- see reopen_ed_buffer (). */
+  if (!ed->core->fp && init_core_buffer (ed) < 0)
+    return ERR;
   if (!ed->core->text_i)
     return 0;
   ed->core->offset = -1;        /* Force seek on read. */
-- 
2.43.0


From 8c0c9b22a1c2f667f4ced7a4f5b5a1bb121d7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 27/82] fix: a filter's input must not disturb the scratch
 file's offset nor get lost silently

---
 src/aux.c | 19 +++++++++++++++----
 src/buf.c | 15 +++++++++++++++
 src/ed.h  |  1 +
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 4490c03..30c0fad 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -42,6 +42,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   off_t size = 0;
   int ip[2], op[2];
   int pid_status = 0;
+  int write_status = 0;
   int status = 0;
 
   /* Flush any buffered I/O. */
@@ -102,7 +103,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
           || execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
@@ -126,13 +127,16 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     case 0:
       signal (SIGHUP, SIG_DFL);
       signal (SIGINT, SIG_DFL);
+      signal (SIGPIPE, SIG_DFL);
 
       /*
        * Close unused pipe ends, then open and write to shell
-       * process's standard input.
+       * process's standard input. The offset of the editor's own buffer
+       * file descriptor must not change, so use another one.
        */
       if (close (ip[0]) < 0 || close (op[0]) < 0 || close (op[1]) < 0
           || !(ipp = fdopen (ip[1], "w"))
+          || (ed->exec->region->addrs && (status = dup_ed_buffer (ed)) < 0)
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
           || fclose (ipp) < 0)
@@ -142,7 +146,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
         }
 
       /* Avoid exit (3). */
-      _exit (status < 0 ? 127 << 8 : 0);
+      _exit (status < 0 ? 127 : 0);
     }
 
   /*
@@ -195,7 +199,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
  err:
   if (opp)
     (void) fclose (opp);
-  if (write_pid != -1 && wait_child (write_pid, &pid_status, ed) < 0)
+  if (write_pid != -1 && wait_child (write_pid, &write_status, ed) < 0)
     status = ERR;
   if (wait_child (shell_pid, &pid_status, ed) < 0)
     status = ERR;
@@ -205,6 +209,13 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
                 WEXITSTATUS (pid_status));
       ed->exec->err = exit_status;
     }
+
+  /* Shell command wasn't sent all lines. */
+  if (WIFEXITED (write_status) && WEXITSTATUS (write_status) && status >= 0)
+    {
+      ed->exec->err = _("Pipe write error");
+      status = ERR;
+    }
   return status;
 }
 #endif  /* defined (HAVE_FORK) && defined (WANT_EXTERNAL_FILTER) */
diff --git a/src/buf.c b/src/buf.c
index dcd80b0..1f77e73 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -340,6 +340,21 @@ close_ed_buffer (ed_buffer_t *ed)
 }
 
 
+/* dup_ed_buffer: Open on-disk buffer file anew, e.g., after fork (2). */
+int
+dup_ed_buffer (ed_buffer_t *ed)
+{
+  FILE *fp;
+
+  /* If there's no file, all text is in memory -- see reopen_ed_buffer (). */
+  if (!(fp = fopen (ed->core->fp ? ed->core->pathname : "/dev/null", "r")))
+    return ERR;
+  ed->core->fp = fp;
+  ed->core->offset = -1;
+  return 0;
+}
+
+
 /*
  * save_buffer_text: Append text not yet saved to on-disk buffer. The
  *   text is kept until it was written successfully. Return status.
diff --git a/src/ed.h b/src/ed.h
index 74fe004..ddc370e 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -896,6 +896,7 @@ int decode_utf8_char (unsigned char **, int);
 void delete_global_nodes  (const ed_line_node_t *, const ed_line_node_t *,
                            ed_buffer_t *);
 int delete_lines (off_t, off_t, ed_buffer_t *);
+int dup_ed_buffer (ed_buffer_t *);
 int display_lines (off_t, off_t, ed_buffer_t *);
 int encode_utf8_char (char *, int *, unsigned int);
 int exec_command (ed_buffer_t *);
-- 
2.43.0


From 60909c6b3dc81e33dc609e3b407adf72f3d3b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 28/82] fix: an interrupted or failed read must leave the
 buffer's file type right

Lines read before a read error were kept without noting that they are
binary or that the buffer no longer ends with an appended newline, and
a last line for which memory ran out was dropped without an error.
---
 src/io.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/io.c b/src/io.c
index 855aa14..b237c05 100644
--- a/src/io.c
+++ b/src/io.c
@@ -204,6 +204,9 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
       ed->state->is_empty = 0;                                                \
       ed->state->is_modified |= (modifies);                                   \
+      ed->state->is_binary |= ed->state->input_is_binary;                     \
+      if ((addr) == ed->state->lines)                                         \
+        ed->state->newline_appended = ed->state->newline_missing;             \
       spl0 ();                                                                \
     }                                                                         \
   while (0)
@@ -221,6 +224,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   char *tb;
   size_t len;
   int newline_inserted = 0;
+  int binary_tail = ed->state->newline_appended && ed->state->is_binary;
   /*
    * int newline_appended_already = ed->state->newline_appended;
    */
@@ -238,7 +242,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
     PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot, modifies);
-  if (feof (fp))
+  if (feof (fp) && !len)
     {
       fflush (fp);
       clearerr (fp);
@@ -281,11 +285,8 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    * what is expected when concatenating files.
    */
   newline_inserted = (stream_appended
-                      ? ed->state->newline_appended && ed->state->is_binary
+                      ? binary_tail
                       : ed->state->newline_missing);
-  ed->state->newline_appended = (stream_appended
-                                 ? ed->state->newline_missing
-                                 : ed->state->newline_appended);
 
   /* Assume that user knows what they're doing ...
   if (ed->state->is_binary)
@@ -351,6 +352,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   char *t;
   size_t len = 0;
   int newline_inserted = 0;
+  int binary_tail = ed->state->newline_appended && ed->state->is_binary;
   /*
    * int newline_appended_already = ed->state->newline_appended;
    */
@@ -364,7 +366,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   /* Read stream into memory to avoid reentrant calls to buffer file I/O. */
   for (*size = 0; (s = get_stream_line (fp, &len, ed)); *size += len)
     APPEND_TEXT_NODE (&th, s, len, ed);
-  if (feof (fp))
+  if (feof (fp) && !len)
     {
       fflush (fp);
       clearerr (fp);
@@ -415,11 +417,8 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 
   /* If stream_appended, then nl_prev == 0  ==> nl_prev && binary_prev == 0. */
   newline_inserted = (stream_appended
-                      ? ed->state->newline_appended && ed->state->is_binary
+                      ? binary_tail
                       : ed->state->newline_missing);
-  ed->state->newline_appended = (stream_appended
-                                 ? ed->state->newline_missing
-                                 : ed->state->newline_appended);
 
   /* Assume that user knows what they're doing ... */
   /*
-- 
2.43.0


From 28829c97fc1d22a58193cf48da1afde3845c9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 29/82] fix: don't carry on with an editor that could not be
 set up

---
 src/buf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 1f77e73..47a91ed 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -33,11 +33,10 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
 {
   char *cs, *ls;
   long l;
-  int status;
 
-  if ((status = init_stdio (ed)) < 0
-      || (status = init_core_buffer (ed)) < 0)
-    return status;
+  /* Nothing can be edited without these, so don't carry on. */
+  if (init_stdio (ed) < 0 || init_core_buffer (ed) < 0)
+    return FATAL;
 
   /*
    * If ed is invoked with file args, any file globbing is done at the
@@ -45,7 +44,8 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
    * even if file globbing support is not enabled.
    */
   ed->file->list->gl_pathc = argc;
-  ed->file->list->gl_pathv = dup_argv (argc, argv, ed);
+  if (!(ed->file->list->gl_pathv = dup_argv (argc, argv, ed)))
+    return FATAL;
 
   /*
    * Reset file_glob->gl_offs after first glob(3) -- see file_glob().
-- 
2.43.0


From 1d4ccacac2d4aac233f8033f779c9b2f98701fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 30/82] fix: a global substitution must not stop at a NUL
 character

---
 src/sub.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index ef21ee4..1c8740f 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -520,7 +520,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Infinite loop!! */
       if (matched_prev && nil_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
           j = TEXT_CHAR_SIZE (txt, eot - txt, ed);
           REALLOC_THROW (rb, rb_size, *len + j, ERR, ed);
@@ -555,7 +555,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Not yet ... */
       else
         {
-          if (nil_next && !*txt)
+          if (nil_next && txt == eot)
             break;
           if (!j)
             j = TEXT_CHAR_SIZE (txt, eot - txt, ed);
@@ -633,7 +633,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Infinite loop!! */
       if (matched_prev && nul_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
           off = 1;
           matched_prev = 0;
@@ -650,7 +650,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Not yet ... */
       else
         {
-          if (nul_next && !*txt)
+          if (nul_next && txt == eot)
             break;
           if (!off)
             ++off;
-- 
2.43.0


From 92e92228f8fbcf46c299bc424a795e64c787af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 31/82] fix: filter lines that contain NUL characters without
 corrupting them

---
 src/io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index b237c05..bc3c997 100644
--- a/src/io.c
+++ b/src/io.c
@@ -330,8 +330,11 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      if ((_t = (char *) malloc ((len) + 1)))                                 \
+        memcpy (_t, (s), (len) + 1);                                          \
+      if (!_t || !append_text_node ((th), _t, (len)))                         \
         {                                                                     \
+          free (_t);                                                          \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
           return ERR;                                                         \
-- 
2.43.0


From f340eb9be799e61a48762e086b847b272f73c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 32/82] fix: don't lose the arguments when memory is exhausted
 at startup

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6ca0d54..4a2c750 100644
--- a/src/main.c
+++ b/src/main.c
@@ -218,7 +218,8 @@ top:
     }
 
 #ifdef WANT_ADDRESS_ARGUMENTS
-  argv = collect_address_args (&argc, argv, ed);
+  if (!(argv = collect_address_args (&argc, argv, ed)))
+    script_die (3, ed);
 #endif
 
   /* In case of option `-f' or `-e', rewind internal script file. */
-- 
2.43.0


From 0e8211a5ffeeff71507f6b2d86ca0b967cced048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 33/82] fix: don't handle signals on streams that quit has
 closed

---
 src/buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index 47a91ed..f9baefe 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -589,6 +589,8 @@ get_line_node_address (const ed_line_node_t *lp, off_t *addr, ed_buffer_t *ed)
 void
 quit (int n, ed_buffer_t *ed)
 {
+  /* A signal handler mustn't find streams closed below. */
+  spl1 ();
   if (ed->core->fp)
     {
       (void) fclose (ed->core->fp);
-- 
2.43.0


From 91bd8470db34912c84bff687f63da4abfe59a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 34/82] fix: recover from a macro whose script cannot be set up
 or removed

---
 src/aux.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 30c0fad..086722c 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -262,13 +262,18 @@ script_from_register (ed_buffer_t *ed)
       if ((status = init_script_buffer (ed)) < 0)
         return status;
     }
-  else if (FSEEK (ed->exec->fp, 0L, SEEK_END) == -1
-           || (offset = FTELL (ed->exec->fp)) == -1)
+  else
     {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (ed->exec->fp);
-      return ERR;
+      /* Drop any commands left by a macro whose frame wasn't removed. */
+      offset = ed->core->stack_frame[ed->core->sp - 1]->size;
+      if (FSEEK (ed->exec->fp, offset, SEEK_SET) == -1
+          || ftruncate (fileno (ed->exec->fp), offset) == -1)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File seek error");
+          clearerr (ed->exec->fp);
+          return ERR;
+        }
     }
 
   if ((status = append_stream (ed->exec->fp, read_fp, &size, ed)) < 0)
@@ -391,7 +396,8 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
 #else
       stdin = ed->core->stack_frame[0]->fp;
 #endif
-      if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
+      if (ed->exec->fp
+          && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
           && (ftruncate (fileno (ed->exec->fp),
                          ed->core->stack_frame[0]->size) == -1
               || fflush (ed->exec->fp) == EOF
@@ -400,8 +406,8 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
         {
           fprintf (stderr, "stdin: %s\n", strerror (errno));
           ed->exec->err = _("File seek error");
-          spl0 ();
-          return ERR;
+          if (status != FATAL)
+            status = ERR;
         }
       while (ed->core->sp > 0)
         free (ed->core->stack_frame[ed->core->sp--]);
-- 
2.43.0


From 2ea4e1c883133fdad7ec770048588b7058dcd938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 35/82] fix: don't free a bracket expression's character set
 twice when memory is exhausted

---
 lib/regcomp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regcomp.c b/lib/regcomp.c
index 696cf81..26c53ce 100644
--- a/lib/regcomp.c
+++ b/lib/regcomp.c
@@ -3274,13 +3274,13 @@ parse_bracket_exp (re_string_t *regexp, re_dfa_t *dfa, re_token_t *token,
     }
   else
     {
-      free_charset (mbcset);
       /* Build a tree for simple bracket.  */
       br_token.type = SIMPLE_BRACKET;
       br_token.opr.sbcset = sbcset;
       work_tree = create_token_tree (dfa, NULL, NULL, &br_token);
       if (__glibc_unlikely (work_tree == NULL))
 	goto parse_bracket_exp_espace;
+      free_charset (mbcset);
     }
   return work_tree;
 
-- 
2.43.0


From 349acc3bbd190ea8d98bead3802bf8e97a5bb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 36/82] fix: don't run the rest of a command line that couldn't
 be read

---
 src/io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index bc3c997..d86141b 100644
--- a/src/io.c
+++ b/src/io.c
@@ -543,7 +543,13 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
   for (; (c = getc (fp)) != EOF && c != '\n'; ++*len)
 #endif  /* !WANT_ED_ENCRYPTION */
     {
-      REALLOC_THROW (tb, tb_size, *len + 1, NULL, ed);
+      if (!realloc_buffer ((void **) &tb, &tb_size, *len + 1, ed))
+        {
+          /* Don't take the rest of a command line for a command. */
+          while (fp == stdin && c != '\n' && c != EOF)
+            c = getc (fp);
+          return NULL;
+        }
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
   if (feof (fp))
-- 
2.43.0


From b73acd2ec203907e947e80bb4b53aa0e5c66bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 37/82] fix: don't leave the default file name undefined when
 interrupted

---
 src/exec.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 2782c12..f7eba33 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -65,6 +65,25 @@
     }                                                                         \
   while (0)
 
+/*
+ * set_file_name: Set default file name. Signals are deferred so that an
+ *   interrupt can't leave it undefined.
+ */
+static int
+set_file_name (const char *fn, size_t len, ed_buffer_t *ed)
+{
+  int status = 0;
+
+  spl1 ();
+  if (!realloc_buffer ((void **) &ed->file->name, &ed->file->name_size,
+                       len + 1, ed))
+    status = ERR;
+  else
+    strcpy (ed->file->name, fn);
+  spl0 ();
+  return status;
+}
+
 #ifdef WANT_ED_REGISTER
 
 /* DESTINATION_ADDRESS: Get destination address from command buffer. */
@@ -538,8 +557,8 @@ E_cmd (ed_buffer_t *ed)
       /* Per SUSv4, file name changes unconditionally. */
       if (*fn != '\0')
         {
-          REALLOC_THROW (ed->file->name, ed->file->name_size, len + 1, ERR, ed);
-          strcpy (ed->file->name, fn);
+          if ((status = set_file_name (fn, len, ed)) < 0)
+            return status;
           ++is_default;
         }
       else if (ed->file->name && *ed->file->name != '\0')
@@ -626,6 +645,7 @@ exec_macro (ed_buffer_t *ed)
 static int
 f_cmd (ed_buffer_t *ed)
 {
+  int status;
   size_t len = 0;
   char *fn = NULL;
   int cx = 0;
@@ -677,8 +697,8 @@ f_cmd (ed_buffer_t *ed)
   else
     {
       FILE_NAME (fn, len, cy, 1, 0, ed);
-      REALLOC_THROW (ed->file->name, ed->file->name_size, len+1, ERR, ed);
-      strcpy (ed->file->name, fn);
+      if ((status = set_file_name (fn, len, ed)) < 0)
+        return status;
     }
 
   /*
@@ -1067,8 +1087,8 @@ r_cmd (ed_buffer_t *ed)
       /* Save filename as default iff ed->file->name not set. */
       if (!ed->file->name && *fn != '\0')
         {
-          REALLOC_THROW (ed->file->name, ed->file->name_size, len + 1, ERR, ed);
-          strcpy (ed->file->name, fn);
+          if ((status = set_file_name (fn, len, ed)) < 0)
+            return status;
           ++is_default;
         }
       else if (*fn == '\0' && ed->file->name && *ed->file->name != '\0')
@@ -1440,9 +1460,8 @@ w_cmd (ed_buffer_t *ed)
         /* Save filename as default iff ed->file->name not set. */
         if (!ed->file->name && *fn != '\0')
           {
-            REALLOC_THROW (ed->file->name, ed->file->name_size,
-                           len + 1, ERR, ed);
-            strcpy (ed->file->name, fn);
+            if ((status = set_file_name (fn, len, ed)) < 0)
+              return status;
             ++is_default;
           }
         else if (*fn == '\0' && ed->file->name && *ed->file->name != '\0')
-- 
2.43.0


From 804f6c49336527b57be21fde5c34fa3c6160a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 38/82] fix: close the stream of an interrupted command without
 writing what it still buffers

---
 src/aux.c  |  5 ++++-
 src/ed.h   |  2 ++
 src/io.c   | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 src/main.c |  2 ++
 4 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 086722c..25d35aa 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -181,7 +181,10 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   spl0 ();
 
   /* Read standard output of shell process via reentrant read_stream. */
-  if ((status = read_stream_r (opp, ed->state->dot, &size, ed)) < 0)
+  use_stream (opp, fclose);
+  status = read_stream_r (opp, ed->state->dot, &size, ed);
+  use_stream (NULL, NULL);
+  if (status < 0)
     goto err;
 
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
diff --git a/src/ed.h b/src/ed.h
index ddc370e..9dab7e3 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -897,6 +897,7 @@ void delete_global_nodes  (const ed_line_node_t *, const ed_line_node_t *,
                            ed_buffer_t *);
 int delete_lines (off_t, off_t, ed_buffer_t *);
 int dup_ed_buffer (ed_buffer_t *);
+void discard_stream (ed_buffer_t *);
 int display_lines (off_t, off_t, ed_buffer_t *);
 int encode_utf8_char (char *, int *, unsigned int);
 int exec_command (ed_buffer_t *);
@@ -1029,6 +1030,7 @@ void unmark_line_node (const ed_line_node_t *, ed_buffer_t *);
 int utf8_char_size (const char *, size_t);
 int utf8_char_display_width (const char *, int);
 int utf8_strlen (const char *, size_t);
+void use_stream (FILE *, int (*) (FILE *));
 int write_file (const char *, int, off_t, off_t, off_t *, off_t *,
                 const char *, ed_buffer_t *);
 int write_pipe (const char *, off_t, off_t, off_t *, off_t *, ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index d86141b..3dc2f4f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -31,6 +31,45 @@ static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
 static void broken_pipe (int);
 
+/* Stream in use by the current command, and how to close it. */
+static FILE *stream_fp = NULL;
+static int (*stream_close) (FILE *) = NULL;
+
+
+/* use_stream: Note stream, or NULL, used by the current command. */
+void
+use_stream (FILE *fp, int (*fn) (FILE *))
+{
+  spl1 ();
+  stream_fp = fp;
+  stream_close = fn;
+  spl0 ();
+}
+
+
+/*
+ * discard_stream: Close stream that an interrupted command was using. Any
+ *   text still buffered mustn't be written, neither now nor later.
+ */
+void
+discard_stream (ed_buffer_t *ed)
+{
+  FILE *fp = stream_fp;
+
+  if (!fp)
+    return;
+  stream_fp = NULL;
+#ifdef WANT_FILE_LOCK
+  if (fp == ed->file->handle)
+    {
+      ed->file->handle = NULL;
+      ed->file->inode = 0;
+    }
+#endif
+  (void) close (fileno (fp));
+  (void) stream_close (fp);
+}
+
 
 /* read_file: Read file to buffer; return line count. */
 int
@@ -122,7 +161,13 @@ read_file (const char *fn, off_t after, off_t *addr,
 #endif  /* HAVE_FILE_LOCK */
 
 
-  if ((status = read_stream (fp, after, size, ed)) < 0)
+#ifdef WANT_FILE_LOCK
+  if (fp != ed->file->handle)
+#endif
+    use_stream (fp, fclose);
+  status = read_stream (fp, after, size, ed);
+  use_stream (NULL, NULL);
+  if (status < 0)
     {
 #ifdef WANT_FILE_LOCK
       if (fp != ed->file->handle)
@@ -173,7 +218,10 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       ed->exec->err = _("File open error");
       return ERR;
     }
-  if ((status = read_stream (fp, after, size, ed)) < 0)
+  use_stream (fp, pclose);
+  status = read_stream (fp, after, size, ed);
+  use_stream (NULL, NULL);
+  if (status < 0)
     {
       (void) pclose (fp);
       return status;
@@ -681,7 +729,10 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
                           ? _("%s: File already locked\n") : ""), fn);
     }
 #endif  /* WANT_FILE_LOCK */
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
+  use_stream (fp, fclose);
+  status = write_stream (fp, lp, n, size, ed);
+  use_stream (NULL, NULL);
+  if (status < 0)
     {
       /* Don't leave unwritten data behind for a later write to flush. */
 #ifdef WANT_FILE_LOCK
@@ -745,7 +796,10 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       signal (SIGPIPE, handler);
       return ERR;
     }
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
+  use_stream (fp, pclose);
+  status = write_stream (fp, lp, n, size, ed);
+  use_stream (NULL, NULL);
+  if (status < 0)
     {
       (void) pclose (fp);
       signal (SIGPIPE, handler);
diff --git a/src/main.c b/src/main.c
index 4a2c750..d7bd4f0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -297,6 +297,8 @@ top:
 /*
  * #ifdef WANT_ED_MACRO
  */
+      discard_stream (ed);
+
       /* Unwind stack frame on interrupt. */
       status = unwind_stack_frame (ERR, ed);
 /*
-- 
2.43.0


From c6fd7e8472cbe79fe488304be96708d6b37299a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 39/82] fix: don't free the regular expression that a repeated
 substitution still uses

---
 src/re.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/re.c b/src/re.c
index 90dd4f8..4082885 100644
--- a/src/re.c
+++ b/src/re.c
@@ -15,6 +15,8 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   static const char *compile_err = NULL;
   static regex_t *re_search = NULL; /* search regex */
   static regex_t *re_subst = NULL;  /* substitution regex */
+  static regex_t *re_repeat = NULL; /* only used by repeated substitution */
+  regex_t *re_prev = NULL;          /* replaced regex */
   regex_t *re = NULL;
 
 #ifndef HAVE_REG_SYNTAX_T
@@ -215,22 +217,32 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   switch (re_type)
     {
     case RE_SUBST:
-      if (re_subst && re_subst != re_search)
-        {
-          regfree (re_subst);
-          free (re_subst);
-        }
+      if (re_subst != re_search)
+        re_prev = re_subst;
       re_subst = re;
       break;
     case RE_SEARCH:
-      if (re_search && re_search != re_subst)
-        {
-          regfree (re_search);
-          free (re_search);
-        }
+      if (re_search != re_subst)
+        re_prev = re_search;
       re_search = re;
       break;
     }
+
+  /* Until another substitution succeeds, `s' alone repeats the last one,
+     whose regex might be none of the above anymore. */
+  if (re_repeat && re_repeat != ed->exec->subst->lhs)
+    {
+      regfree (re_repeat);
+      free (re_repeat);
+      re_repeat = NULL;
+    }
+  if (re_prev && re_prev == ed->exec->subst->lhs)
+    re_repeat = re_prev;
+  else if (re_prev)
+    {
+      regfree (re_prev);
+      free (re_prev);
+    }
   return re;
 }
 
-- 
2.43.0


From de05627663e1ba8bfdccbfb5e7e7e19e9ee1a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 40/82] fix: don't take running out of memory while matching
 for a line that doesn't match

---
 lib/regexec.c |  2 +-
 src/glbl.c    | 13 +++++++++----
 src/re.c      |  5 +++++
 src/sub.c     | 16 ++++++++++++++--
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/lib/regexec.c b/lib/regexec.c
index 9f065df..60b82ba 100644
--- a/lib/regexec.c
+++ b/lib/regexec.c
@@ -213,7 +213,7 @@ regexec (const regex_t *__restrict preg, const char *__restrict string,
     err = re_search_internal (preg, string, length, start, length,
 			      length, nmatch, pmatch, eflags);
   lock_unlock (dfa->lock);
-  return err != REG_NOERROR;
+  return err;
 }
 
 #ifdef _LIBC
diff --git a/src/glbl.c b/src/glbl.c
index 9826130..d85d3dd 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -24,7 +24,7 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
   off_t from = ed->exec->region->start;
   off_t to = ed->exec->region->end;
   off_t n = from ? to - from + 1 : 0;
-  int match;
+  int status;
   char dc = *ed->input;              /* pattern delimiting char */
   char *s;
 
@@ -48,16 +48,21 @@ mark_global_nodes (int want_match, ed_buffer_t *ed)
       rm->rm_so = 0;
       rm->rm_eo = lp->len;
       spl1 ();                  /* regexec (3) can't be interrupted. */
-      match = !regexec (re, s, 0, rm, REG_STARTEND);
+      status = regexec (re, s, 0, rm, REG_STARTEND);
       spl0 ();
 #else
       if (ed->state->is_binary)
         NUL_TO_NEWLINE (s, lp->len);
       spl1 ();                  /* regexec (3) can't be interrupted. */
-      match = !regexec (re, s, 0, NULL, 0);
+      status = regexec (re, s, 0, NULL, 0);
       spl0 ();
 #endif  /* !REG_STARTEND */
-      if (match == want_match && !append_global_node (lp, ed))
+      if (status && status != REG_NOMATCH)
+        {
+          ed->exec->err = _("Memory exhausted");
+          return ERR;
+        }
+      if (!status == want_match && !append_global_node (lp, ed))
         return ERR;
     }
   return 0;
diff --git a/src/re.c b/src/re.c
index 4082885..f04d191 100644
--- a/src/re.c
+++ b/src/re.c
@@ -285,6 +285,11 @@ get_matching_node_address (const regex_t *re, int dir, off_t *addr,
 #endif  /* !defined (REG_STARTEND) */
           if (!status)
             return 0;
+          else if (status != REG_NOMATCH)
+            {
+              ed->exec->err = _("Memory exhausted");
+              return ERR;
+            }
         }
     }
   while (*addr != ed->state->dot);
diff --git a/src/sub.c b/src/sub.c
index 1c8740f..0ff0c2b 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -468,6 +468,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
   int matched_prev = 0;
   int nil_prev;
   int nil_next = 1;
+  int re_status = 0;
   int status;
 #ifdef REG_STARTEND
   int eflag = REG_STARTEND;
@@ -511,7 +512,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 #endif
   for (*len = 0, eot = txt + lp->len, rm->rm_so = 0, rm->rm_eo = lp->len;
        (!changed || (s_f & GSUB))
-         && !exec_regex (re, txt, rm, eflag);
+         && !(re_status = exec_regex (re, txt, rm, eflag));
        txt += j, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
     {
       i = rm->rm_so, j = rm->rm_eo;
@@ -569,6 +570,11 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
           matched_prev = 0;
         }
     }
+  if (re_status && re_status != REG_NOMATCH)
+    {
+      ed->exec->err = _("Memory exhausted");
+      return ERR;
+    }
   if (!changed)
     return *len = 0;
   i = eot > txt ? eot - txt : 0;
@@ -603,6 +609,7 @@ count_matches (const regex_t *re, const char *txt, int len,
   int matched_prev = 0;
   int nul_prev;
   int nul_next = 1;
+  int re_status;
 #ifdef REG_STARTEND
   int eflag = REG_STARTEND;
 #else
@@ -623,7 +630,7 @@ count_matches (const regex_t *re, const char *txt, int len,
     NUL_TO_NEWLINE (txt, len);
 #endif
   for (eot = txt + len, rm->rm_so = 0, rm->rm_eo = len;
-       !exec_regex (re, txt, rm, eflag);
+       !(re_status = exec_regex (re, txt, rm, eflag));
        txt += off, rm->rm_so = 0, rm->rm_eo = eot - txt, eflag |= REG_NOTBOL)
     {
       off = rm->rm_eo;
@@ -657,6 +664,11 @@ count_matches (const regex_t *re, const char *txt, int len,
           matched_prev = 0;
         }
     }
+  if (re_status && re_status != REG_NOMATCH)
+    {
+      ed->exec->err = _("Memory exhausted");
+      return ERR;
+    }
   return nmatches;
 }
 
-- 
2.43.0


From 384dc035fb8095d774da256f111e933e0260fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 41/82] fix: an interrupt must not part the cached line from
 its number

---
 src/buf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index f9baefe..31fa9c6 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -536,6 +536,10 @@ get_line_node (off_t n, ed_buffer_t *ed)
   static ed_line_node_t *lp = NULL;
   static off_t n_prev = 0;
 
+  ed_line_node_t *np;
+
+  /* An interrupt mustn't part the node from its number. */
+  spl1 ();
   if (!lp)
     lp = ed->core->line_head;
 
@@ -563,7 +567,9 @@ get_line_node (off_t n, ed_buffer_t *ed)
             lp = lp->q_forw;
         }
     }
-  return lp;
+  np = lp;
+  spl0 ();
+  return np;
 }
 
 
-- 
2.43.0


From 09c57c635fe763db815d55ce8227eee467812384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 42/82] fix: an interrupted copy of a register must not write
 lines twice

---
 src/io.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io.c b/src/io.c
index 3dc2f4f..a2d4f32 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1197,9 +1197,11 @@ inter_register_copy (int append, ed_buffer_t *ed)
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
-  if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-    return status;
-  return 0;
+  /* Text buffered by an interrupted write would be written twice. */
+  spl1 ();
+  status = append_stream (write_fp, read_fp, &size, ed);
+  spl0 ();
+  return status;
 }
 
 
@@ -1265,11 +1267,12 @@ inter_register_move (int append, ed_buffer_t *ed)
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
-  if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-    return status;
-  else if ((status = reset_register_buffer (read_idx, ed)) < 0)
-    return status;
-  return 0;
+  /* Text buffered by an interrupted write would be written twice. */
+  spl1 ();
+  if (!(status = append_stream (write_fp, read_fp, &size, ed)))
+    status = reset_register_buffer (read_idx, ed);
+  spl0 ();
+  return status;
 }
 
 
-- 
2.43.0


From 295a905658e5b02d871b3c11798ebef7ca678366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 43/82] fix: close an interrupted command's stream even if
 interrupted again

---
 src/io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.c b/src/io.c
index a2d4f32..8f4174d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -58,6 +58,9 @@ discard_stream (ed_buffer_t *ed)
 
   if (!fp)
     return;
+
+  /* Another interrupt mustn't keep the stream from being closed. */
+  spl1 ();
   stream_fp = NULL;
 #ifdef WANT_FILE_LOCK
   if (fp == ed->file->handle)
@@ -68,6 +71,7 @@ discard_stream (ed_buffer_t *ed)
 #endif
   (void) close (fileno (fp));
   (void) stream_close (fp);
+  spl0 ();
 }
 
 
-- 
2.43.0


From bbdceb7f9f0f9bb9189813652cc03f737ba724e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 44/82] fix: a failed append must not end the last line of a
 binary buffer with a newline

---
 src/cmds.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index a2f5ae1..63bc497 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -65,8 +65,6 @@ append_lines (off_t after, ed_buffer_t *ed)
         }
       spl1 ();
       ed->state->is_binary |= ed->state->input_is_binary;
-      if (after == ed->state->lines)
-        ed->state->newline_appended = 0;
       if (!(ed->input = put_buffer_line (ed->input, len, ed)))
         {
           spl0 ();
@@ -74,6 +72,10 @@ append_lines (off_t after, ed_buffer_t *ed)
         }
       lp = get_line_node (ed->state->dot, ed);
       APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
+
+      /* Only a line really appended is newline-terminated. */
+      if (ed->state->dot == ed->state->lines)
+        ed->state->newline_appended = 0;
       ed->state->is_empty = 0;
       ed->state->is_modified = 1;
       spl0 ();
-- 
2.43.0


From 6e36d83f98610f258e73dc8f601c34c4ebcd7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 45/82] fix: don't block signals for good when a display line
 buffer can't be allocated

---
 src/page.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/page.c b/src/page.c
index 8f72ac9..ed55854 100644
--- a/src/page.c
+++ b/src/page.c
@@ -811,15 +811,24 @@ init_frame_buffer (ed_frame_buffer_t *fb, ed_buffer_t *ed)
             free (fb->row[n]->text);
             init_frame_node (fb->row[n]);
           }
-      REALLOC_THROW (fp, fp_size,
-                     (ed->display->ws_row - 1) * sizeof (ed_frame_node_t *),
-                     ERR, ed);
+      if (!realloc_buffer ((void **) &fp, &fp_size,
+                           (ed->display->ws_row - 1)
+                           * sizeof (ed_frame_node_t *), ed))
+        {
+          spl0 ();
+          return ERR;
+        }
       fb->row = (ed_frame_node_t **) fp;
       for (n = max (0, fb->rows - 1); n < ed->display->ws_row - 1; ++n)
         {
           size = 0;
           fb->row[n] = NULL;
-          REALLOC_THROW (fb->row[n], size, sizeof (ed_frame_node_t), ERR, ed);
+          if (!realloc_buffer ((void **) &fb->row[n], &size,
+                               sizeof (ed_frame_node_t), ed))
+            {
+              spl0 ();
+              return ERR;
+            }
           init_frame_node (fb->row[n]);
         }
 
-- 
2.43.0


From 2dfa412d7d48a69ba8fa0d91066fb196a68a0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 46/82] fix: report failure to resume the caller of a macro

---
 src/aux.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 25d35aa..f6f1548 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -360,12 +360,12 @@ pop_stack_frame (ed_buffer_t *ed)
 #else
   stdin = ed->core->stack_frame[ed->core->sp]->fp;
 #endif
-  if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
-      && (ftruncate (fileno (ed->exec->fp),
+  if (FSEEK (ed->exec->fp, 0, SEEK_CUR) == -1
+      || ftruncate (fileno (ed->exec->fp),
                     ed->core->stack_frame[ed->core->sp]->size) == -1
-          || fflush (ed->exec->fp) == EOF
-          || FSEEK (ed->exec->fp,
-                    ed->core->stack_frame[ed->core->sp]->addr, SEEK_SET) == -1))
+      || fflush (ed->exec->fp) == EOF
+      || FSEEK (ed->exec->fp,
+                ed->core->stack_frame[ed->core->sp]->addr, SEEK_SET) == -1)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("File seek error");
@@ -400,9 +400,9 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
       stdin = ed->core->stack_frame[0]->fp;
 #endif
       if (ed->exec->fp
-          && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
-          && (ftruncate (fileno (ed->exec->fp),
-                         ed->core->stack_frame[0]->size) == -1
+          && (FSEEK (ed->exec->fp, 0, SEEK_CUR) == -1
+              || ftruncate (fileno (ed->exec->fp),
+                            ed->core->stack_frame[0]->size) == -1
               || fflush (ed->exec->fp) == EOF
               || FSEEK (ed->exec->fp,
                     ed->core->stack_frame[0]->addr, SEEK_SET) == -1))
-- 
2.43.0


From ebf41364582905a778d7b3e3b2ccbf3246b89388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 47/82] fix: lines read from a register leave the buffer
 modified even if not all can be read

---
 src/io.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8f4174d..277dffc 100644
--- a/src/io.c
+++ b/src/io.c
@@ -27,7 +27,7 @@
 
 /* Static function declarations. */
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
-static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
+static int read_stream (FILE *, off_t, off_t *, int, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
 static void broken_pipe (int);
 
@@ -169,7 +169,7 @@ read_file (const char *fn, off_t after, off_t *addr,
   if (fp != ed->file->handle)
 #endif
     use_stream (fp, fclose);
-  status = read_stream (fp, after, size, ed);
+  status = read_stream (fp, after, size, ed->state->lines > 0, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -223,7 +223,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   use_stream (fp, pclose);
-  status = read_stream (fp, after, size, ed);
+  status = read_stream (fp, after, size, ed->state->lines > 0, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -266,10 +266,12 @@ read_pipe (const char *fn, off_t after, off_t *addr,
 
 /*
  * read_stream: Read a stream into the editor buffer after the given
- *   address. Parameter *size is set to bytes read.
+ *   address. Parameter *size is set to bytes read. If `modifies' is
+ *   nonzero, any line read leaves the buffer modified.
  */
 static int
-read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
+read_stream (FILE *fp, off_t after, off_t *size, int modifies,
+             ed_buffer_t *ed)
 {
   ed_line_node_t *lp = get_line_node (after, ed);
   ed_undo_node_t *up = NULL;
@@ -281,7 +283,6 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    * int newline_appended_already = ed->state->newline_appended;
    */
   int stream_appended = after == ed->state->lines;
-  int modifies = ed->state->lines > 0;
 
   ed->state->dot = after;
   ed->state->input_is_binary = 0;
@@ -1064,7 +1065,6 @@ append_from_register (off_t addr, ed_buffer_t *ed)
   int read_idx = ed->core->regbuf->read_idx;
   FILE *read_fp = ed->core->regbuf->fp[read_idx];
   off_t size = 0;
-  int status = 0;
 
   /* Nothing to read. */
   if (!read_fp)
@@ -1077,11 +1077,7 @@ append_from_register (off_t addr, ed_buffer_t *ed)
       return ERR;
     }
 
-  if ((status = read_stream (read_fp, addr, &size, ed)) < 0)
-    return status;
-  if (size)
-    ed->state->is_modified = 1;
-  return 0;
+  return read_stream (read_fp, addr, &size, 1, ed);
 }
 
 
-- 
2.43.0


From 089bf0458357998e72df10c802602ac2bbeca772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 48/82] fix: an interrupted seek in a register must not write
 its text twice

---
 src/io.c | 90 +++++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/src/io.c b/src/io.c
index 277dffc..2bd49ad 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1055,6 +1055,27 @@ is_fifo (const char *fn, ed_buffer_t *ed)
 
 
 #ifdef WANT_ED_REGISTER
+/*
+ * seek_register: Set file offset of register. An interrupt mustn't come
+ *   between buffered text being written and being forgotten.
+ */
+static int
+seek_register (FILE *fp, int whence, ed_buffer_t *ed)
+{
+  spl1 ();
+  if (FSEEK (fp, 0L, whence) != 0)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File seek error");
+      clearerr (fp);
+      spl0 ();
+      return ERR;
+    }
+  spl0 ();
+  return 0;
+}
+
+
 /*
  * append_from_register: Append lines from register to buffer after given
  *   address.
@@ -1069,13 +1090,8 @@ append_from_register (off_t addr, ed_buffer_t *ed)
   /* Nothing to read. */
   if (!read_fp)
     return 0;
-  else if (FSEEK (read_fp, 0L, SEEK_SET) < 0)
-    {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (read_fp);
-      return ERR;
-    }
+  else if (seek_register (read_fp, SEEK_SET, ed) < 0)
+    return ERR;
 
   return read_stream (read_fp, addr, &size, 1, ed);
 }
@@ -1113,13 +1129,8 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
 
   if (append)
     {
-      if (FSEEK (write_fp, 0L, SEEK_END) != 0)
-        {
-          fprintf (stderr, "%s\n", strerror (errno));
-          ed->exec->err = _("File seek error");
-          clearerr (write_fp);
-          return ERR;
-        }
+      if (seek_register (write_fp, SEEK_END, ed) < 0)
+        return ERR;
     }
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
@@ -1176,23 +1187,13 @@ inter_register_copy (int append, ed_buffer_t *ed)
     }
 
 
-  if (FSEEK (read_fp, 0L, SEEK_SET) != 0)
-    {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (read_fp);
-      return ERR;
-    }
+  if (seek_register (read_fp, SEEK_SET, ed) < 0)
+    return ERR;
 
   if (append)
     {
-      if (FSEEK (write_fp, 0L, SEEK_END) != 0)
-        {
-          fprintf (stderr, "%s\n", strerror (errno));
-          ed->exec->err = _("File seek error");
-          clearerr (write_fp);
-          return ERR;
-        }
+      if (seek_register (write_fp, SEEK_END, ed) < 0)
+        return ERR;
     }
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
@@ -1247,22 +1248,12 @@ inter_register_move (int append, ed_buffer_t *ed)
       return 0;
     }
 
-  if (FSEEK (read_fp, 0L, SEEK_SET) != 0)
-    {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (read_fp);
-      return ERR;
-    }
+  if (seek_register (read_fp, SEEK_SET, ed) < 0)
+    return ERR;
   if (append)
     {
-      if (FSEEK (write_fp, 0L, SEEK_END) != 0)
-        {
-          fprintf (stderr, "%s\n", strerror (errno));
-          ed->exec->err = _("File seek error");
-          clearerr (write_fp);
-          return ERR;
-        }
+      if (seek_register (write_fp, SEEK_END, ed) < 0)
+        return ERR;
     }
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
@@ -1284,19 +1275,18 @@ reset_register_buffer (int idx, ed_buffer_t *ed)
 
   if (!fp)
     return 0;
-  else if (FSEEK (fp, 0L, SEEK_SET) != 0)
-    {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (fp);
-      return ERR;
-    }
-  else if (fflush (fp) == EOF || ftruncate (fileno (fp), 0) == -1)
+  else if (seek_register (fp, SEEK_SET, ed) < 0)
+    return ERR;
+
+  spl1 ();
+  if (fflush (fp) == EOF || ftruncate (fileno (fp), 0) == -1)
     {
       fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
       ed->exec->err = _("File truncate error");
+      spl0 ();
       return ERR;
     }
+  spl0 ();
   return 0;
 }
 #endif  /* WANT_ED_REGISTER */
-- 
2.43.0


From 491c65590382c41b9aa0abc68621bbe7616e0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 49/82] fix: an interrupt can't leave line numbering without a
 format

---
 src/page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/page.c b/src/page.c
index ed55854..ca13c14 100644
--- a/src/page.c
+++ b/src/page.c
@@ -124,6 +124,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
       /* If lines has changed, update format string. */
       if (lines != ed->state->lines)
         {
+          spl1 ();
           n = lines = ed->state->lines;
           for (lines_len = 0; n /= 10; ++lines_len)
             ;
@@ -131,6 +132,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
 
           /* Set line numbering format string. */
           sprintf (fmt, "%%%d" OFF_T_FORMAT_STRING "\t", lines_len);
+          spl0 ();
         }
 
       /* Evaluate format string, fmt, with address, addr, of dot. */
@@ -550,6 +552,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
       /* If lines has changed, update format string. */
       if (lines != ed->state->lines)
         {
+          spl1 ();
           n = lines = ed->state->lines;
           for (lines_len = 0; n /= 10; ++lines_len)
             ;
@@ -557,6 +560,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
 
           /* Set line numbering format string. */
           sprintf (fmt, "%%%d" OFF_T_FORMAT_STRING "\t", lines_len);
+          spl0 ();
         }
 
       /* Evaluate format string, fmt, with address, addr, of dot. */
-- 
2.43.0


From c4b8e6c993b8155debd36f7ac1589743ec81b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 50/82] fix: an interrupt while a macro is loaded can't write
 register text twice

---
 src/aux.c | 12 +++++-------
 src/ed.h  |  1 +
 src/io.c  |  2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index f6f1548..0f35748 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -252,13 +252,8 @@ script_from_register (ed_buffer_t *ed)
         return status;
       read_fp = ed->core->regbuf->fp[read_idx];
     }
-  else if (FSEEK (read_fp, 0L, SEEK_SET) == -1)
-    {
-      fprintf (stderr, "%s\n", strerror (errno));
-      ed->exec->err = _("File seek error");
-      clearerr (read_fp);
-      return ERR;
-    }
+  else if ((status = seek_register (read_fp, SEEK_SET, ed)) < 0)
+    return status;
 
   if (!ed->exec->fp)
     {
@@ -269,14 +264,17 @@ script_from_register (ed_buffer_t *ed)
     {
       /* Drop any commands left by a macro whose frame wasn't removed. */
       offset = ed->core->stack_frame[ed->core->sp - 1]->size;
+      spl1 ();
       if (FSEEK (ed->exec->fp, offset, SEEK_SET) == -1
           || ftruncate (fileno (ed->exec->fp), offset) == -1)
         {
           fprintf (stderr, "%s\n", strerror (errno));
           ed->exec->err = _("File seek error");
           clearerr (ed->exec->fp);
+          spl0 ();
           return ERR;
         }
+      spl0 ();
     }
 
   if ((status = append_stream (ed->exec->fp, read_fp, &size, ed)) < 0)
diff --git a/src/ed.h b/src/ed.h
index 9dab7e3..a05e086 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -873,6 +873,7 @@ ed_buffer_t *alloc_ed_buffer (void);
 
 #ifdef WANT_ED_REGISTER
 int append_from_register (off_t, ed_buffer_t *);
+int seek_register (FILE *, int, ed_buffer_t *);
 #endif
 
 int append_lines (off_t, ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index 2bd49ad..f252dfd 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1059,7 +1059,7 @@ is_fifo (const char *fn, ed_buffer_t *ed)
  * seek_register: Set file offset of register. An interrupt mustn't come
  *   between buffered text being written and being forgotten.
  */
-static int
+int
 seek_register (FILE *fp, int whence, ed_buffer_t *ed)
 {
   spl1 ();
-- 
2.43.0


From 9663745b2a30fa66c21bbbdab481579c50c1768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 51/82] fix: a seek error between files can't end a script run
 with status 0

---
 src/main.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index d7bd4f0..410f606 100644
--- a/src/main.c
+++ b/src/main.c
@@ -414,11 +414,21 @@ top:
 #endif
 
           /* Command-line files still available and stdin seekable... */
-          if (ed->file->list->gl_offs && ed->file->list->gl_pathc > 1
-              && FSEEK(stdin, 0L, SEEK_SET) != -1)
+          if (ed->file->list->gl_offs && ed->file->list->gl_pathc > 1)
             {
-              status = EOF_NEXT;
-              goto next;
+              if (FSEEK(stdin, 0L, SEEK_SET) != -1)
+                {
+                  status = EOF_NEXT;
+                  goto next;
+                }
+
+              /* Don't skip the remaining files of a script silently. */
+              else if (ed->exec->fp)
+                {
+                  fprintf (stderr, "%s\n", strerror (errno));
+                  ed->exec->err = _("File seek error");
+                  script_die (3, ed);
+                }
             }
           quit (ed->exec->status, ed);
         case EMOD:
-- 
2.43.0


From 364e9e7f753436614478e3596b6f0a2518f24fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 52/82] fix: a hexadecimal or binary key changes the meaning of
 a later ASCII key

---
 src/cbc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cbc.c b/src/cbc.c
index 655c80f..b6d527b 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -216,6 +216,9 @@ expand_des_key (unsigned char *obuf, char *kbuf, ed_buffer_t *ed)
   int i, j;
   int nbuf[64];			/* Buffer for hex/binary key conversion. */
 
+  /* Parity bits of a previous key don't matter. */
+  pflag = 0;
+
   /* 64-digit binary key. */
   if (kbuf[0] == '0' && (kbuf[1] == 'b' || kbuf[1] == 'B'))
     {
-- 
2.43.0


From 7a133d7a02b5e584b59b7374ec4c7539c345703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 53/82] fix: an encrypted file that can't be decrypted, or ends
 in an empty line, is silently cut short

---
 src/cbc.c | 41 ++++++++++++++++++++++++++++++++---------
 src/ed.h  |  1 +
 src/io.c  | 14 +++++++++++++-
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index b6d527b..61667f2 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -63,12 +63,13 @@ static DES_key_schedule schedule; /* expanded DES key */
 static unsigned char des_buf[8];  /* Buffer for get_des_char/put_des_char. */
 static int des_ct = 0;          /* Count for get_des_char/put_des_char. */
 static int des_n = 0;           /* Index for put_des_char/get_des_char. */
+static int des_failed = 0;      /* If set, decryption failed. */
 
 /* init_des_cipher: Initialize DES. */
 void
 init_des_cipher (void)
 {
-  des_ct = des_n = 0;
+  des_ct = des_n = des_failed = 0;
 
   /* Initialize initialization vector. */
   MEMZERO (ivec, 8);
@@ -91,6 +92,14 @@ get_des_char (FILE *fp, ed_buffer_t *ed)
 }
 
 
+/* is_des_failure: Return status of reading encrypted file. */
+int
+is_des_failure (void)
+{
+  return des_failed;
+}
+
+
 /* put_des_char: Write char to encrypted file, and return char written. */
 int
 put_des_char (int c, FILE *fp)
@@ -357,22 +366,35 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
   DES_cblock tbuf;		/* Initialization vector. */
   int n, c;
 
-  if ((n = READ (msgbuf, 8, fp)) == 8)
+  /* An interrupted read mustn't lose part of a block. */
+  for (n = 0; (n += READ (msgbuf + n, 8 - n, fp)) < 8 && ferror (fp)
+         && errno == EINTR;)
+    clearerr (fp);
+
+  if (n == 8)
     {
+      while ((c = fgetc (fp)) == EOF && ferror (fp) && errno == EINTR)
+        clearerr (fp);
+
+      /* Whether this is the last block is not known. */
+      if (c == EOF && ferror (fp))
+        return EOF;
+
       MEMCPY (tbuf, msgbuf, 8);
       DES_ecb_encrypt((DES_cblock *) msgbuf, (DES_cblock *) msgbuf,
                       &schedule, DES_DECRYPT);
-      for (c = 0; c < 8; c++)
-        msgbuf[c] ^= ivec[c];
+      for (n = 0; n < 8; n++)
+        msgbuf[n] ^= ivec[n];
       MEMCPY (ivec, tbuf, 8);
 
       /* If the last one, handle it specially. */
-      if ((c = fgetc (fp)) == EOF)
+      if (c == EOF)
         {
           n = msgbuf[7];
           if (n < 0 || n > 7)
             {
               ed->exec->err = _("Decryption failed (block corrupted)");
+              des_failed = 1;
               return EOF;
             }
         }
@@ -380,10 +402,11 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
         (void) ungetc (c, fp);
       return n;
     }
-  if (n > 0)
-    ed->exec->err = _("Decryption failed (incomplete block)");
-  else if (n < 0)
-    ed->exec->err = _("File read error");
+  if (n > 0 && !ferror (fp))
+    {
+      ed->exec->err = _("Decryption failed (incomplete block)");
+      des_failed = 1;
+    }
   return EOF;
 }
 #endif /* WANT_ED_ENCRYPTION */
diff --git a/src/ed.h b/src/ed.h
index a05e086..2924132 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -934,6 +934,7 @@ char *get_stream_line (FILE *, size_t *, ed_buffer_t *);
 
 #ifdef WANT_ED_ENCRYPTION
 void init_des_cipher (void);
+int is_des_failure (void);
 #endif
 
 void init_ed_command (int, ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index f252dfd..234bd77 100644
--- a/src/io.c
+++ b/src/io.c
@@ -295,6 +295,13 @@ read_stream (FILE *fp, off_t after, off_t *size, int modifies,
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
     PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot, modifies);
+#ifdef WANT_ED_ENCRYPTION
+  if (ed->exec->have_key && is_des_failure ())
+    {
+      clearerr (fp);
+      return ERR;
+    }
+#endif
   if (feof (fp) && !len)
     {
       fflush (fp);
@@ -605,7 +612,12 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
         }
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
-  if (feof (fp))
+#ifdef WANT_ED_ENCRYPTION
+  if (ed->exec->have_key && fp != stdin && is_des_failure ())
+    return NULL;
+#endif
+  /* NB: End of file may be seen while there are still characters to decrypt. */
+  if (c == EOF && feof (fp))
     {
       if (!*len)
 
-- 
2.43.0


From f3a0cdba45e1ec4d4fba2d5e92c2e8996e70f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 54/82] fix: with a key set, registers, macros and filters see
 encrypted text

---
 src/aux.c |  2 +-
 src/ed.h  |  3 ++-
 src/io.c  | 53 ++++++++++++++++++++++++++++++++++-------------------
 3 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 0f35748..e4082f3 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -138,7 +138,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs && (status = dup_ed_buffer (ed)) < 0)
           || (ed->exec->region->addrs
-              && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
+              && (status = write_stream (ipp, lp, n, &size, 0, ed)) < 0)
           || fclose (ipp) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
diff --git a/src/ed.h b/src/ed.h
index 2924132..8a1af53 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -1036,4 +1036,5 @@ void use_stream (FILE *, int (*) (FILE *));
 int write_file (const char *, int, off_t, off_t, off_t *, off_t *,
                 const char *, ed_buffer_t *);
 int write_pipe (const char *, off_t, off_t, off_t *, off_t *, ed_buffer_t *);
-int write_stream (FILE *, ed_line_node_t *, off_t, off_t *, ed_buffer_t *);
+int write_stream (FILE *, ed_line_node_t *, off_t, off_t *, int,
+                  ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index 234bd77..8c00ad6 100644
--- a/src/io.c
+++ b/src/io.c
@@ -27,7 +27,15 @@
 
 /* Static function declarations. */
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
-static int read_stream (FILE *, off_t, off_t *, int, ed_buffer_t *);
+static int read_stream (FILE *, off_t, off_t *, int, int, ed_buffer_t *);
+
+#ifdef WANT_ED_ENCRYPTION
+/*
+ * Set if current stream is encrypted. Registers and input to, or output
+ * of, a filter aren't.
+ */
+static int is_encrypted = 0;
+#endif
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
 static void broken_pipe (int);
 
@@ -169,7 +177,7 @@ read_file (const char *fn, off_t after, off_t *addr,
   if (fp != ed->file->handle)
 #endif
     use_stream (fp, fclose);
-  status = read_stream (fp, after, size, ed->state->lines > 0, ed);
+  status = read_stream (fp, after, size, ed->state->lines > 0, 1, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -223,7 +231,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   use_stream (fp, pclose);
-  status = read_stream (fp, after, size, ed->state->lines > 0, ed);
+  status = read_stream (fp, after, size, ed->state->lines > 0, 1, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -267,10 +275,11 @@ read_pipe (const char *fn, off_t after, off_t *addr,
 /*
  * read_stream: Read a stream into the editor buffer after the given
  *   address. Parameter *size is set to bytes read. If `modifies' is
- *   nonzero, any line read leaves the buffer modified.
+ *   nonzero, any line read leaves the buffer modified. If `encrypted' is
+ *   nonzero and a key is set, the stream is decrypted.
  */
 static int
-read_stream (FILE *fp, off_t after, off_t *size, int modifies,
+read_stream (FILE *fp, off_t after, off_t *size, int modifies, int encrypted,
              ed_buffer_t *ed)
 {
   ed_line_node_t *lp = get_line_node (after, ed);
@@ -289,14 +298,14 @@ read_stream (FILE *fp, off_t after, off_t *size, int modifies,
   ed->state->newline_missing = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if ((is_encrypted = encrypted && ed->exec->have_key))
     init_des_cipher ();
 #endif
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
     PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot, modifies);
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key && is_des_failure ())
+  if (is_encrypted && is_des_failure ())
     {
       clearerr (fp);
       return ERR;
@@ -375,7 +384,7 @@ read_stream (FILE *fp, off_t after, off_t *size, int modifies,
     fprintf (stderr, _("Newline appended\n"));
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (is_encrypted)
     if (*size)
       *size += 8 - *size % 8;     /* Adjust for DES padding. */
 #endif
@@ -424,6 +433,9 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   ed->state->input_is_binary = 0;
   ed->state->newline_missing = 0;
 
+#ifdef WANT_ED_ENCRYPTION
+  is_encrypted = 0;
+#endif
   init_text_deque (&th);
 
   /* Read stream into memory to avoid reentrant calls to buffer file I/O. */
@@ -597,7 +609,7 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
 
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; (c = (ed->exec->have_key && fp != stdin ? get_des_char (fp, ed)
+  for (; (c = (is_encrypted && fp != stdin ? get_des_char (fp, ed)
                : getc (fp))) != EOF && c != '\n'; ++*len)
 #else
   for (; (c = getc (fp)) != EOF && c != '\n'; ++*len)
@@ -613,7 +625,7 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key && fp != stdin && is_des_failure ())
+  if (is_encrypted && fp != stdin && is_des_failure ())
     return NULL;
 #endif
   /* NB: End of file may be seen while there are still characters to decrypt. */
@@ -747,7 +759,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
     }
 #endif  /* WANT_FILE_LOCK */
   use_stream (fp, fclose);
-  status = write_stream (fp, lp, n, size, ed);
+  status = write_stream (fp, lp, n, size, 1, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -814,7 +826,7 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       return ERR;
     }
   use_stream (fp, pclose);
-  status = write_stream (fp, lp, n, size, ed);
+  status = write_stream (fp, lp, n, size, 1, ed);
   use_stream (NULL, NULL);
   if (status < 0)
     {
@@ -834,10 +846,13 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
 }
 
 
-/* write_stream: Write a range of lines to a stream; return status. */
+/*
+ * write_stream: Write a range of lines to a stream; return status. If
+ *   `encrypted' is nonzero and a key is set, the stream is encrypted.
+ */
 int
 write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
-              off_t *size, ed_buffer_t *ed)
+              off_t *size, int encrypted, ed_buffer_t *ed)
 {
   size_t len;
   char *s;
@@ -845,7 +860,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
   int status = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if ((is_encrypted = encrypted && ed->exec->have_key))
     init_des_cipher ();
 #endif
 
@@ -874,7 +889,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
     }
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (is_encrypted)
     {
       flush_des_file (fp);
       if (*size)
@@ -899,7 +914,7 @@ static int
 put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
 {
 #ifdef WANT_ED_ENCRYPTION
-  for (; len && (ed->exec->have_key ? put_des_char ((unsigned) *s, fp)
+  for (; len && (is_encrypted ? put_des_char ((unsigned) *s, fp)
                  : putc ((unsigned) *s, fp)) != EOF; --len, ++s)
 #else
   for (; len && putc ((unsigned) *s, fp) != EOF; --len, ++s)
@@ -1105,7 +1120,7 @@ append_from_register (off_t addr, ed_buffer_t *ed)
   else if (seek_register (read_fp, SEEK_SET, ed) < 0)
     return ERR;
 
-  return read_stream (read_fp, addr, &size, 1, ed);
+  return read_stream (read_fp, addr, &size, 1, 0, ed);
 }
 
 
@@ -1150,7 +1165,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
   /* Lines in a register always end in newline, so it can be appended to. */
   spl1 ();
   ed->state->newline_appended = 0;
-  status = write_stream (write_fp, lp, n, &size, ed);
+  status = write_stream (write_fp, lp, n, &size, 0, ed);
   ed->state->newline_appended = newline_appended;
   spl0 ();
   return status;
-- 
2.43.0


From 2f6dfa80ead9d888968761c21e3de571180d5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 55/82] fix: a line ending in a form feed at the foot of a page
 loses its newline

---
 src/page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index ca13c14..c5d4406 100644
--- a/src/page.c
+++ b/src/page.c
@@ -624,7 +624,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
            * only a new line. Any following text continues on the next
            * line -- indented to the current column.
            */
-          if ((form_feed = (*s == '\f')))
+          if ((form_feed = (*s == '\f')) && fb->rem_chars > 1)
             inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
         }
       else
-- 
2.43.0


From ac54149ef3e54cdcdcb4ebf855b76fd9cc9228e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 56/82] fix: after a write error, later blocks of an encrypted
 file are still written

---
 src/cbc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 61667f2..014126d 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -28,9 +28,10 @@
 # define MEMCPY(dest,src,len)	memcpy((dest),(src),(len))
 # define MEMZERO(dest,len)	memset((dest), 0, (len))
 
-/* read/write without error checking. */
+/* Read without error checking; write all or fail. */
 # define READ(buf, n, fp)	fread(buf, sizeof(char), n, fp)
-# define WRITE(buf, n, fp)	fwrite(buf, sizeof(char), n, fp)
+# define WRITE(buf, n, fp)                                                    \
+  (fwrite (buf, sizeof (char), n, fp) == (n) ? (int) (n) : EOF)
 
 /* Static function declarations. */
 static int expand_des_key (unsigned char *, char *, ed_buffer_t *);
-- 
2.43.0


From 7466aca58d17ddf2ebd32cc90426844b04fb79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 57/82] fix: an error reported earlier mustn't fail a later
 write to a register

---
 src/io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io.c b/src/io.c
index 8c00ad6..425b087 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1162,6 +1162,9 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
   else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
+  /* An error met flushing the register since has already been reported. */
+  clearerr (write_fp);
+
   /* Lines in a register always end in newline, so it can be appended to. */
   spl1 ();
   ed->state->newline_appended = 0;
-- 
2.43.0


From fc1deb137c71b398b46118a55a906282bc708e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 58/82] fix: case-change stack of a substitution template is
 undersized

---
 src/sub.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 0ff0c2b..12d9107 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -689,8 +689,7 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   int n;
   int change_once = 0;
 
-  if (cc_size < rhs_i / 2 + 1)
-    REALLOC_THROW (cc, cc_size, rhs_i /  2 + 1, ERR, ed);
+  REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof *cc, ERR, ed);
   cc[cc_top++] = 0;
 
   for (; sub < rhs + rhs_i; ++sub)
-- 
2.43.0


From fcaeb8333d80e0dd5bbd2fb44acc5cbeca5cd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 59/82] fix: an interrupted substitution may add a newline to a
 binary file

---
 src/sub.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 12d9107..3fffa67 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -413,15 +413,16 @@ substitute_lines (off_t from, off_t to, regex_t *re, off_t s_nth,
           while (txt != eot);
           ++nsubs;
           dot = ed->state->dot;
+
+          /* Preserve flag newline_appended, irrespective of
+             substitution (and before any interrupt), to prevent
+             gratuitous newline in binary output. */
+          ed->state->newline_appended = nl;
           ed->state->is_binary |= ed->state->input_is_binary;
           spl0 ();
         }
     }
   ed->state->dot = dot;
-
-  /* Preserve flag newline_appended, inrespective of substitution, to
-     prevent gratuitous newline in binary output. */
-  ed->state->newline_appended = nl;
   if (nsubs == 0 && !ed->exec->global)
     {
       ed->exec->err = _("No match");
-- 
2.43.0


From 204b8d3ffe6a8dd8a5dd13eb1ee5f5ced4fb410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 60/82] fix: substitution frequency relative to the number of
 matches may divide by zero

---
 src/sub.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index 3fffa67..ee8ba35 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -503,7 +503,11 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
 
   /* Last match-relative s_mod? */
   if (s_f & SMLR)
-    s_mod += n;
+    {
+      /* If requested match isn't available, then nothing to do. */
+      if ((s_mod += n) <= 0)
+        return *len = 0;
+    }
   else if (!s_mod)
     s_mod = 1;
 
-- 
2.43.0


From b834d41988d4eaa4f03deee36ec228c6282b7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 61/82] fix: `$' of a repeated substitution doesn't override
 the previous match selection

---
 src/sub.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sub.c b/src/sub.c
index ee8ba35..3dc9d35 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -49,13 +49,17 @@ resubstitute (off_t *s_nth, off_t *s_mod, unsigned *s_f,
         ++ed->input;
         if (g_f)
           {
+            /* As for `sg2', override any previous global modifier. */
+            *s_f &= ~GSUB;
             *s_f |= SMLR;       /* Select frequency: (match_count - s_mod). */
+            *s_mod = 0;
             if ((status = address_offset (s_mod, ed)) < 0)
               return status;
           }
         else
           {
             *s_f |= SNLR;       /* Select (match_count - s_nth) match. */
+            *s_nth = 0;
             if ((status = address_offset (s_nth, ed)) < 0)
               return status;
           }
-- 
2.43.0


From 6be8f09ac25d9d188eee739800b35ac66c1f7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 62/82] fix: matches of a multibyte line counted differently
 than substituted

---
 src/sub.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 3dc9d35..e205b5a 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -651,7 +651,7 @@ count_matches (const regex_t *re, const char *txt, int len,
         {
           if (txt == eot)
             break;
-          off = 1;
+          off = TEXT_CHAR_SIZE (txt, eot - txt, ed);
           matched_prev = 0;
         }
 
@@ -669,7 +669,7 @@ count_matches (const regex_t *re, const char *txt, int len,
           if (nul_next && txt == eot)
             break;
           if (!off)
-            ++off;
+            off = TEXT_CHAR_SIZE (txt, eot - txt, ed);
           matched_prev = 0;
         }
     }
-- 
2.43.0


From 7e9a3fd1bb83e8423b9918da30dbabba29991032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 63/82] fix: frequency of a repeated substitution is lost after
 first line of a global command

---
 src/exec.c | 2 ++
 src/sub.c  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index f7eba33..33d5d56 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1153,6 +1153,8 @@ s_cmd (ed_buffer_t *ed)
       if (!ed->exec->global || ed->exec->first_pass
           || (ed->exec->global & GLBI))
         {
+          if (sgpr_f & TGSF)
+            s_f &= ~GSUB;
           if (sgpr_f & TGSG)
             s_f ^= GSUB;
           if (sgpr_f & TGSP)
diff --git a/src/sub.c b/src/sub.c
index e205b5a..b668ba3 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -50,7 +50,7 @@ resubstitute (off_t *s_nth, off_t *s_mod, unsigned *s_f,
         if (g_f)
           {
             /* As for `sg2', override any previous global modifier. */
-            *s_f &= ~GSUB;
+            *sgpr_f |= TGSF;
             *s_f |= SMLR;       /* Select frequency: (match_count - s_mod). */
             *s_mod = 0;
             if ((status = address_offset (s_mod, ed)) < 0)
@@ -93,7 +93,7 @@ resubstitute (off_t *s_nth, off_t *s_mod, unsigned *s_f,
              *  nor `s;x;y;p'. Instead, it is interpreted as
              *  `s;x;y;g2p'.
              */
-            *s_f &= ~(GSUB | SMLR);
+            *sgpr_f |= TGSF;
             *s_mod = 0;
             if ((status = address_offset (s_mod, ed)) < 0)
               return status;
-- 
2.43.0


From 5e5a497073fbf4cfb1eb0dcb9990f4b25e45665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 64/82] fix: an interactive global reads past an unterminated
 last line of input

---
 src/glbl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glbl.c b/src/glbl.c
index d85d3dd..6853752 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -115,7 +115,14 @@ exec_global (ed_buffer_t *ed)
           if ((status = display_lines (ed->state->dot,
                                        ed->state->dot, ed)) < 0)
             return status;
-          else if (!(ed->input = get_stdin_line (&len, ed))
+          else if ((ed->input = get_stdin_line (&len, ed))
+                   && *(ed->input + len - 1) != '\n')
+            {
+              ed->exec->err = _("End-of-file unexpected");
+              clearerr (stdin);
+              return ERR;
+            }
+          else if (!ed->input
                    || !(ed->input = get_extended_line (&len, 0, 1, ed)))
             {
               /* For an interactive global command, permit EOF to cancel. */
-- 
2.43.0


From aa4ccd34d46f4c179a1b752766855a160a6720b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 65/82] fix: macros fail for good if interrupted after a read
 error

---
 src/aux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aux.c b/src/aux.c
index e4082f3..7acf37b 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -262,9 +262,11 @@ script_from_register (ed_buffer_t *ed)
     }
   else
     {
-      /* Drop any commands left by a macro whose frame wasn't removed. */
+      /* Drop any commands left by a macro whose frame wasn't removed,
+         and any read error. */
       offset = ed->core->stack_frame[ed->core->sp - 1]->size;
       spl1 ();
+      clearerr (ed->exec->fp);
       if (FSEEK (ed->exec->fp, offset, SEEK_SET) == -1
           || ftruncate (fileno (ed->exec->fp), offset) == -1)
         {
-- 
2.43.0


From e40a5d09647516983f7f2ce16ac79eaccb740f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 66/82] fix: paging backward fails if line 1 was the last one
 displayed

---
 src/page.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index c5d4406..91083de 100644
--- a/src/page.c
+++ b/src/page.c
@@ -298,7 +298,8 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
    */
   if (ed->display->io_f & ZBWD && !(ed->display->io_f & (ZHBW | ZHFW))
       && !ed->exec->region->addrs && fb->prev_first
-           && fb->prev_first->addr == 1 && fb->prev_first->offset == 0)
+           && fb->prev_first->addr == 1 && fb->prev_first->offset == 0
+           && to == 1)
     {
       ed->exec->err = _("Address out of range");
       return ERR;
-- 
2.43.0


From 841aa7c7de3df4828b5d44d17ba433acafe4ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:32 +0000
Subject: [PATCH 67/82] fix: display fails if the size of the window in the
 environment is out of range

---
 src/buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 31fa9c6..0149c2d 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -70,7 +70,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_row)
+  if (!ed->display->ws_row)
     ed->display->ws_row = WS_ROW;
 
   if ((cs = getenv ("COLUMNS")))
@@ -81,7 +81,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_col)
+  if (!ed->display->ws_col)
     ed->display->ws_col = WS_COL;
 
   /* Assign a default command prompt. */
-- 
2.43.0


From 6fc324b092ca1f330064bcf0c7cbef5cc354c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 68/82] fix: listing folds a line within or after its last
 UTF-8 character

---
 src/page.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/page.c b/src/page.c
index 91083de..efd7278 100644
--- a/src/page.c
+++ b/src/page.c
@@ -650,8 +650,14 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
             col += 4;
         }
 
-      /* Convert fb->rem_chars to units of wide chars. */
-      len = ed->state->is_utf8 ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars;
+      /*
+       * Convert fb->rem_chars to units of wide chars, unless listing
+       * bytes or not at the start of a UTF-8 character.
+       */
+      len = fb->rem_chars;
+      if (ed->state->is_utf8 && !(ed->display->io_f & LIST)
+          && utf8_strlen (s, fb->rem_chars) >= 0)
+        len = utf8_strlen (s, fb->rem_chars);
 
       /*
        * When listing text -- i.e., ed->display->io_f & LIST --
-- 
2.43.0


From 459818661b1689f481dc2a185051dd5ecede6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 69/82] fix: resizing the window while a page is worked out
 shows the wrong lines

---
 src/exec.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 33d5d56..c1f2145 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1624,9 +1624,12 @@ Z_cmd (ed_buffer_t *ed)
    * page. Otherwise, display page preceding current address.
    */
   ed->display->io_f |= ZBWD;
-  return display_lines (max (1, (off_t) ed->exec->region->end -
-                             ed->display->ws_row + 2),
-                        ed->exec->region->end, ed);
+
+  /* Don't let the window size change while calculating the page. */
+  spl1 ();
+  addr = max (1, (off_t) ed->exec->region->end - ed->display->ws_row + 2);
+  spl0 ();
+  return display_lines (addr, ed->exec->region->end, ed);
 }
 
 static int
@@ -1675,6 +1678,8 @@ z_cmd (ed_buffer_t *ed)
   COMMAND_SUFFIX (ed->display->io_f, ed);
   ++ed->display->paging;
 
+  /* Don't let the window size change while calculating the page. */
+  spl1 ();
   switch (c)
     {
     case 'z':
@@ -1716,6 +1721,7 @@ z_cmd (ed_buffer_t *ed)
       ed->display->io_f |= ZFWD | ZHFW;
       break;
     }
+  spl0 ();
   return display_lines (ed->exec->region->end, addr, ed);
 }
 
-- 
2.43.0


From c30822bcde9d7189cc5f1bdd9e47cd499ac1309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 70/82] fix: paging resumes from a page that was not the last
 thing shown, reading outside its line

---
 src/exec.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index c1f2145..39ad30f 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1585,13 +1585,16 @@ Z_cmd (ed_buffer_t *ed)
       return ERR;
     }
 
-  /* Determine address of last line to print. */
-  if (ed->exec->region->addrs)
+  /* If not resuming from a page, ignore frame buffer status. */
+  if (ed->exec->region->addrs || (c == 'Z' && !ed->display->is_paging))
     {
-      addr = ed->state->dot - !ed->exec->global;
       ed->display->underflow = 0;
       ed->display->overflow = 0;
     }
+
+  /* Determine address of last line to print. */
+  if (ed->exec->region->addrs)
+    addr = ed->state->dot - !ed->exec->global;
   else
     {
       addr = (ed->display->is_paging ? ed->display->page_addr : ed->state->dot);
@@ -1647,8 +1650,8 @@ z_cmd (ed_buffer_t *ed)
       return ERR;
     }
 
-  /* If address provided, ignore frame buffer status. */
-  if (ed->exec->region->addrs)
+  /* If not resuming from a page, ignore frame buffer status. */
+  if (ed->exec->region->addrs || (c == 'z' && !ed->display->is_paging))
     {
       ed->display->underflow = 0;
       ed->display->overflow = 0;
-- 
2.43.0


From 64ae7b9daed9e6b8d33b5509901ad7b6584bc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 71/82] fix: listing backward by page marks every line as
 continued on the next page

---
 src/page.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/page.c b/src/page.c
index efd7278..80fe740 100644
--- a/src/page.c
+++ b/src/page.c
@@ -691,8 +691,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
     FB_PUTS ("\n", fb, ed);
   else if (ed->display->io_f & LIST && !fb->rem_chars)
     {
-      if (ed->display->io_f & (ZBWD | ZHBW)
-          && fb->prev_first && fb->prev_first->offset)
+      /* Rest of line is at top of previous page. */
+      if (ed->display->io_f & (ZBWD | ZHBW) && ed->display->overflow
+          && fb->prev_first && fb->prev_first->lp == lp)
         FB_PUTS (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)
                  ? "\n" : "\\\n", fb, ed);
       else
-- 
2.43.0


From a29b36f68321b60f152931cd52a05f9e087a6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 72/82] fix: a file name in a global command list does not read
 on from standard input

A file name ending in a backslash (`g/re/r foo\') in a global command list read its continuation from standard input, and the rest of the list was taken from what that left in the line buffer; and a pattern's final backslash was taken to escape the byte after its end
---
 src/io.c    | 14 ++++++++++++++
 src/parse.c |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 425b087..a4b8d10 100644
--- a/src/io.c
+++ b/src/io.c
@@ -554,6 +554,20 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
    * escapes in this case.
    */
   p = trailing_escapes (xl, xl + *len - 1);
+
+  /*
+   * The rest of a global command list is already in the command buffer,
+   * so a file name there ends with its line, as does a shell command.
+   */
+#ifdef WANT_ED_MACRO
+  if (nonl && ed->exec->global && !ed->core->sp)
+#else
+  if (nonl && ed->exec->global)
+#endif
+    {
+      *(xl + --*len) = '\0';
+      return xl;
+    }
   while (nonl ? *len > 1 && *(xl + *len - 2) == '\\' : p % 2)
     {
       /*
diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..d54a022 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -410,7 +410,7 @@ strtok_with_delimiters (char *s, const char *delims)
 
   /* Remove escapes preceding `delims'; break on unescaped `delims' char. */
   for (tok = s = t;; ++t, ++s)
-    if (*t == '\\' && strchr (delims, (unsigned char) *(t + 1)))
+    if (*t == '\\' && *(t + 1) && strchr (delims, (unsigned char) *(t + 1)))
         *s = *++t;
     else if ((*s = *t) == '\0' || strchr (delims, (unsigned char) *s))
       break;
-- 
2.43.0


From 6fa15ba0a9d56a90e39bc40fa393932cf793faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 73/82] fix: ~r, ~w and ~f in a global command list drop the
 commands after them

Checking each name of the file list replaced the command buffer, so the rest of a global command list was silently skipped
---
 src/parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index d54a022..ca557ba 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -561,6 +561,7 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   static char *fn;
   static size_t fn_size;
 
+  char *input = ed->input;      /* Rest of command buffer */
   char *s;
   size_t len;
 
@@ -572,7 +573,9 @@ is_valid_name (const char *name, ed_buffer_t *ed)
       strcpy (ed->input = fn, name);
       strcpy (fn + len, "\n");
     }
-  if ((s = file_name (&len, ed)) && strcmp (name, s))
+  s = file_name (&len, ed);
+  ed->input = input;
+  if (s && strcmp (name, s))
     {
       ed->exec->err = _("Invalid file name");
       return NULL;
-- 
2.43.0


From a476f98f417fefc1f0a4b36db4842295aaaa4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 74/82] fix: editing one file leaves the file list half set

E without a name rewound only one of the two copies of the file list, so the list was cut short and a later ~f PATTERN freed a pointer in its middle
---
 src/exec.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 39ad30f..b6f0e95 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -503,7 +503,6 @@ E_cmd (ed_buffer_t *ed)
   off_t size = 0;
   size_t len = 0;
   char *fn = NULL;
-  int cx = 0;
   int cy = 0;
   int is_default = 0;
   int status = 0;               /* Return status */
@@ -523,7 +522,6 @@ E_cmd (ed_buffer_t *ed)
       return ERR;
     }
   SKIP_WHITESPACE (ed);
-  cx = *ed->input;
   FILE_NAME (fn, len, cy, 1, 0, ed);
 
   spl1 ();
@@ -541,7 +539,7 @@ E_cmd (ed_buffer_t *ed)
       return status;
     }
 
-  init_ed_command (cx != '\n', ed);
+  init_ed_command (0, ed);
   init_ed_state (0, &ed->state[0]);
   init_ed_state (-1, &ed->state[1]);
   spl0 ();
-- 
2.43.0


From 0d415a8e7cd7ae57e00f097bcc84abf8cfc40e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 75/82] fix: an interrupt or a failure while a file list is
 read leaves a freed list in use

the list is put together with signals held, and every failure leaves an empty one
---
 src/parse.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index ca557ba..e6cb86e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -262,6 +262,9 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
      Whitespace within a file glob must be back slash-escaped (\). */
   if ((pattern = strtok_with_delimiters (xl, WHITE_SPACE)))
     {
+      /* Until expanded, file->list and file->glob don't agree. */
+      spl1 ();
+
       /* Not updating file->glob, so use  one_time_glob instead. */
       if (ed->file->list->gl_pathv && !replace)
         {
@@ -271,6 +274,7 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
             {
               fprintf (stderr, "%s\n", strerror (errno));
               ed->exec->err = _("Memory exhausted");
+              spl0 ();
               return NULL;
             }
           else if (one_time_glob->gl_pathv)
@@ -306,8 +310,12 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
       for (s = pattern; pattern;
            pattern = strtok_with_delimiters (NULL, WHITE_SPACE))
         {
-          if (!expand_glob (pattern, s == pattern ? 0 : GLOB_APPEND, gp, ed))
+          if (!expand_glob (pattern, s == pattern ? 0 : GLOB_APPEND, gp, ed)
+              || (uniquely && gp->gl_pathc > 1))
             {
+              if (uniquely && gp->gl_pathc > 1)
+                ed->exec->err = _("Too many file names");
+
               /* Reinitialize ed->file->glob/list to known state. */
               if (gp == ed->file->list)
                 {
@@ -316,16 +324,13 @@ file_glob (size_t *len, int cm, int replace, int uniquely, ed_buffer_t *ed)
                   gp->gl_pathv = NULL;
                   *ed->file->glob = *ed->file->list = *gp;
                 }
-              return NULL;
-            }
-          if (uniquely && gp->gl_pathc > 1)
-            {
-              ed->exec->err = _("Too many file names");
+              spl0 ();
               return NULL;
             }
         }
       if (replace && gp && gp->gl_pathv && *gp->gl_pathv)
         *ed->file->glob = *gp;
+      spl0 ();
     }
   /* Select from existing file list. */
   else
-- 
2.43.0


From fc2c140dcec8ba544cfa5c17509333dd1b886ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 76/82] fix: running out of memory while file names are
 expanded is taken for no match

---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index e6cb86e..4594bd2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -459,6 +459,13 @@ expand_glob (char *pattern, int append, glob_t *gp, ed_buffer_t *ed)
   /* If cannot match existing file or directory... */
   if ((status = glob (pattern, GLOB_TILDE | append, NULL, gp)) != 0)
     {
+      /* Don't mistake running out of memory for no match. */
+      if (status == GLOB_NOSPACE)
+        {
+          fprintf (stderr, "%s\n", strerror (ENOMEM));
+          ed->exec->err = _("Memory exhausted");
+          return NULL;
+        }
 
       /* If not a directory pattern, then return unchecked glob. */
       if ((basename = strrchr (pattern, '/')) == NULL)
-- 
2.43.0


From 26fc4796b509a05d9f0be6abd116e749653e37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 77/82] fix: after e in a global command list, text is read
 from standard input

E reset the state of the global command under way, so a following a, i or c read its text from standard input instead of the list
---
 src/buf.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 0149c2d..726c722 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -187,10 +187,6 @@ init_ed_command (int init_glob, ed_buffer_t *ed)
   ed->display->overflow = 0;
   ed->display->hidden = 0;
 
-  /* Global command state */
-  ed->exec->first_pass = 0;
-  ed->exec->global = 0;
-
   /* Set default file list */
   if (init_glob)
     *ed->file->glob = *ed->file->list;
-- 
2.43.0


From d179fa9e485efac0b0a149f196f2fc08f6b67b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 78/82] fix: the current file name is copied onto itself

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index b6f0e95..8527280 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -78,7 +78,7 @@ set_file_name (const char *fn, size_t len, ed_buffer_t *ed)
   if (!realloc_buffer ((void **) &ed->file->name, &ed->file->name_size,
                        len + 1, ed))
     status = ERR;
-  else
+  else if (fn != ed->file->name)
     strcpy (ed->file->name, fn);
   spl0 ();
   return status;
-- 
2.43.0


From 66c29e7f0d4a4e2c99991aa9402e0ac52fa6537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 79/82] fix: an interrupt while a shell command is saved leaves
 the saved command undefined

an interrupt between growing the buffer of the previous shell command and filling it left it unterminated, and a later !! read past its end
---
 src/parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4594bd2..5626592 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -796,8 +796,14 @@ expand_shell_command (size_t *len, int *subs, ed_buffer_t *ed)
       }
 
   /* Preserve current (unexpanded) shell command. */
-  REALLOC_THROW (sc_prev, sc_prev_size, sc_curr_size, NULL, ed);
+  spl1 ();
+  if (!realloc_buffer ((void **) &sc_prev, &sc_prev_size, sc_curr_size, ed))
+    {
+      spl0 ();
+      return NULL;
+    }
   memcpy (sc_prev, sc_curr, sc_curr_size);
+  spl0 ();
   *(sc + *len) = '\0';
   return sc;
 }
-- 
2.43.0


From b11575d0a5f0f805baad01a904aafcff8f570315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:10 +0000
Subject: [PATCH 80/82] fix: quitting after a macro ends with status 3, files
 being left and standard input not seekable

Only a script given with -e or -f has to be read again for each file.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 410f606..8d68734 100644
--- a/src/main.c
+++ b/src/main.c
@@ -423,7 +423,7 @@ top:
                 }
 
               /* Don't skip the remaining files of a script silently. */
-              else if (ed->exec->fp)
+              else if (ed->exec->opt & FSCRIPT)
                 {
                   fprintf (stderr, "%s\n", strerror (errno));
                   ed->exec->err = _("File seek error");
-- 
2.43.0


From 7252c7caa099c2e84a5e07b5199a34fa4cb77d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 81/82] fix: refuse } as an unknown command

The command table is indexed with a mask, so that } (0x7d), one past the
keys it covers, was taken for =.
---
 src/exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 8527280..608fc0b 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -395,8 +395,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
-              : invalid_cmd (ed));
+      return (c >= ED_KEY_FIRST && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[c - ED_KEY_FIRST](ed) : invalid_cmd (ed));
     }
 }
 
-- 
2.43.0


From 4f17624c048e6823be0a34c0283dfb0a5a5b031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 82/82] fix: a pending hangup comes before an interrupt

An interrupt that arrives just as signals are let through again, between
the count reaching zero and the look at what is pending, jumped away and
left a hangup that had arrived first waiting for the next such place.
---
 src/signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 817b163..989d9ac 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -83,6 +83,10 @@ handle_int (int signo)
   if (!_sigactive)
     quit (1, ed);
   _sigflags &= ~(1 << (signo - 1));
+
+  /* Don't leave a hangup that arrived first waiting. */
+  if ((_sigflags & (1 << (SIGHUP - 1))))
+    handle_hup (SIGHUP);
   LONGJMP (env, -1);
 }
 
-- 
2.43.0

