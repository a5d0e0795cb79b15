From 1d915fea94d93646bf60dea2caeef92d3d2aa8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:30 +0000
Subject: [PATCH 01/43] fix: ignore mode escapes from a client whose session
 has been stolen

A stolen client has been unlinked from its console but may still have
unread input.  A force, join, or monitor escape in that input passed a
NULL console to link_objs() and crashed the daemon.
---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..d6b4f2e 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -236,6 +236,12 @@ static void perform_console_writer_linkage(obj_t *client)
         return;
     assert(list_count(client->readers) <= 1);
 
+    /*  A client whose session has ended (eg, its console has been stolen)
+     *    can still have input pending, but no longer has a console.
+     */
+    if (list_is_empty(client->writers))
+        return;
+
     /*  A R/O or R/W client will have exactly one console writer.
      */
     assert(list_count(client->writers) == 1);
-- 
2.43.0


From 757ed1bf8922b8aa4fa3aa83368267d6454f15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:30 +0000
Subject: [PATCH 02/43] fix: do not toggle write access on a mode escape for
 the current mode

A monitor escape from a read-only client made it a writer regardless of
existing writers, and a force or join escape from a read-write client
made it read-only.
---
 src/server-esc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index d6b4f2e..4d829c1 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -227,6 +227,7 @@ static void perform_console_writer_linkage(obj_t *client)
  */
     obj_t *console;
     int gotWrite;
+    int wantWrite;
 
     assert(is_client_obj(client));
 
@@ -253,6 +254,14 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     gotWrite = list_count(client->readers);
 
+    /*  Only the force & join escapes request write-privileges.
+     */
+    wantWrite = client->aux.client.req->enableForce
+        || client->aux.client.req->enableJoin;
+
+    if (!wantWrite == !gotWrite) {
+        return;
+    }
     if (gotWrite) {
         client->aux.client.req->command = CONMAN_CMD_MONITOR;
         unlink_objs(client, console);
-- 
2.43.0


From b9bcd41f6ed5579c9a003c1089033278e51a4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 03/43] fix: always disconnect a client whose session has ended

A client losing its last console (eg, to a console-stealing session) is
to be closed once its buffer is empty.  But if its buffer was already
empty, or the client was suspended, POLLOUT was not set and it stayed
connected indefinitely.
---
 src/server-obj.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..53b2373 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -719,17 +719,21 @@ void unlink_objs(obj_t *src, obj_t *dst)
 
     /*  If a client obj has become completely unlinked, set its EOF flag.
      *    This will prevent new data from being added to the obj's buffer,
-     *    and the obj will be closed once its buffer is empty.
+     *    and the obj will be closed once its buffer is empty.  Set POLLOUT to
+     *    ensure this happens even if the buffer is already empty or the client
+     *    is suspended.
      */
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
         src->gotEOF = 1;
+        tpoll_set(tp_global, src->fd, POLLOUT);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
         dst->gotEOF = 1;
+        tpoll_set(tp_global, dst->fd, POLLOUT);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
-- 
2.43.0


From 45492c4fee44ad352b0344723d84b270f712e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 04/43] fix: flush and shut down an obj reaching EOF with
 buffered data

If the obj was a suspended client, or a console with data buffered while
its connection was down, POLLOUT was not set.  So the client was never
closed and the console was never reconnected.
---
 src/server-obj.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 53b2373..4fd8f11 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -925,7 +925,14 @@ again:
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
-        return(isEmpty ? shutdown_obj(obj) : 0);
+        if (isEmpty) {
+            return(shutdown_obj(obj));
+        }
+        /*  Ensure the remaining data is written even if the obj is a suspended
+         *    client, or a console for which data was buffered while down.
+         */
+        tpoll_set(tp_global, obj->fd, POLLOUT);
+        return(0);
     }
     else {
         DPRINTF((15, "Read %d bytes from [%s].\n", n, obj->name));
-- 
2.43.0


From f182c78b7ff7f99de9e61de6e91c634e327d95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 05/43] fix: reset the telnet escape state for a new connection

If a connection was lost in the middle of a telnet command, the first
bytes of the next connection were processed as the rest of that command.
---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..97075bc 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -265,6 +265,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From 9c9d3602dfe737e807a644b4ba0f8d2cb34aeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 06/43] fix: do not end a telnet subnegotiation at an escaped
 IAC

An escaped IAC within a subnegotiation ended it, and the remainder of the
subnegotiation was treated as console data.
---
 src/server-telnet.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 97075bc..f7ca1b6 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -425,11 +425,15 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found.  The state is
+             *    then set to SE to check the next byte for the SE cmd;
+             *    anything else (eg, an escaped IAC) is still part of the SB.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
+            break;
+        case SE:
+            telnet->aux.telnet.iac = (*p == SE) ? -1 : SB;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From e5adc11cedc6ab49e88ea1b64483cbb603d1ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 07/43] fix: keep log replay consistent after flushing a
 logfile buffer

Resetting the input pointer on a logfile error moved it away from the
most recent log data.  So a replay showed either nothing or stale data
from elsewhere in the buffer.
---
 src/server-obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 4fd8f11..375d0e6 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -838,7 +838,7 @@ int shutdown_obj(obj_t *obj)
      */
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
-    obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->bufOutPtr = obj->bufInPtr;     /* keep data for log replay */
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From acc24d0fe4347efc04bd1dd4e118e9b349a46e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 08/43] fix: allow a console to be reset again once its reset
 has completed

A reset within 60s of the previous one was ignored with a message that
the process was still active even if it had already terminated.
---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index 4d829c1..6e8f0f9 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -462,6 +462,12 @@ static void perform_reset(obj_t *client)
         if (console->resetCmdRef == NULL) {
             continue;
         }
+        if ((console->resetCmdPid > 0)
+                && (kill(console->resetCmdPid, 0) < 0) && (errno == ESRCH)) {
+            (void) tpoll_timeout_cancel(tp_global, console->resetCmdTimer);
+            console->resetCmdPid = 0;   /* previous reset has completed */
+            console->resetCmdTimer = 0;
+        }
         if (console->resetCmdPid > 0) {
             write_notify_msg(console, LOG_INFO,
                 "Ignoring reset of console [%s]: pid %d still active",
-- 
2.43.0


From 3f4eec47f44011855d319e1aa865a4c580351aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 09/43] fix: do not parse the line following a timestamp
 directive as part of it

When the timestamp value had no qualifier, the end-of-line was consumed
while looking for one.  If the next line was not empty, it was parsed as
a continuation of the server directive and rejected.
---
 src/server-conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..2e2e48a 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1425,7 +1425,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
             else {
                 conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
-                    ; /* no-op */
+                    done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-- 
2.43.0


From 874d9ccfd9f6783d2b6a0e615d427d06148a6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 10/43] fix: do not read beyond a format string ending in a
 lone percent

format_obj_string() consumed the terminating NUL as the conversion
specifier and continued with whatever followed the string in memory.
---
 src/server-obj.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 375d0e6..be781f5 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -333,6 +333,9 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
             if (--n > 0) {
                 *pdst++ = c;
             }
+            if (c == '%') {
+                psrc--;                 /* reread the terminating NUL */
+            }
         }
         else {
             switch (*pspec) {
-- 
2.43.0


From f8d7903b6c2bc19f61b1250e795977684f64e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 11/43] fix: do not exit when a client disconnects before being
 identified

A client resetting its connection before the daemon calls getpeername()
causes ENOTCONN, which terminated the daemon.
---
 src/server-sock.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..06d98ae 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -171,10 +171,17 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
-    if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
-        log_err(errno, "Unable to convert network address into string");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_NOTICE, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
+    if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf))) {
+        log_msg(LOG_WARNING,
+            "Unable to convert network address into string: %s",
+            strerror(errno));
+        return(-1);
+    }
     req->port = ntohs(addr.sin_port);
     req->ip = create_string(buf);
     /*
-- 
2.43.0


From 242ebe3ef83fc063093a7a59123086c90275ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 12/43] fix: do not exit when a new client connection cannot be
 accepted

Running out of file descriptors or threads (which any number of clients
can cause) terminated the daemon and thereby all existing sessions.
---
 src/server.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 6b91370..c933ea9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -72,6 +72,7 @@ static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
+static void resume_listen_socket(server_conf_t *conf);
 
 /*  Signal handler flags and whatnot.
  */
@@ -982,7 +983,17 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
-        log_err(errno, "Unable to accept new connection");
+        /*
+         *  The connection stays pending, so stop polling the listen socket for
+         *    a while to avoid spinning until resources become available.
+         */
+        log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+            strerror(errno));
+        if (tpoll_timeout_relative(tp_global,
+                (callback_f) resume_listen_socket, conf, 1000) >= 0) {
+            (void) tpoll_clear(tp_global, conf->ld, POLLIN);
+        }
+        return;
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
 
@@ -1012,7 +1023,18 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        (void) close(sd);
+        free(args);
     }
     return;
 }
+
+
+static void resume_listen_socket(server_conf_t *conf)
+{
+/*  Resumes polling the listening socket for new client connections.
+ */
+    (void) tpoll_set(tp_global, conf->ld, POLLIN);
+    return;
+}
-- 
2.43.0


From d0e5579ffb61f4ea1036211fde16180ab69fc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 13/43] fix: retry a telnet connection for which no socket can
 be created

Running out of file descriptors terminated the daemon.
---
 src/server-telnet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index f7ca1b6..b967639 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,7 +204,10 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-- 
2.43.0


From 3cd53dc5b77d039a91555352a0990424b1f95b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 14/43] fix: write client data preceding an escape sequence
 before processing it

---
 src/server-esc.c |  8 +++++++-
 src/server-obj.c | 40 +++++++++++++++++++++++++++-------------
 src/server.h     |  2 ++
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index 6e8f0f9..57e85fc 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -61,7 +61,9 @@ int process_client_escapes(obj_t *client, void *src, int len)
 /*  Processes the buffer (src) of length (len) received from the client
  *    for escape character sequences.
  *  Escape characters are removed (unstuffed) from the buffer
- *    and immediately processed.
+ *    and immediately processed.  Data preceding an escape sequence is written
+ *    out before that sequence is processed since the sequence may itself
+ *    write to the consoles or change which consoles the client writes to.
  *  Returns the new length of the modified buffer.
  */
     const unsigned char *last = (unsigned char *) src + len;
@@ -76,6 +78,10 @@ int process_client_escapes(obj_t *client, void *src, int len)
     for (p=q=src; p<last; p++) {
         if (client->aux.client.gotEscape) {
             client->aux.client.gotEscape = 0;
+            if (*p != ESC_CHAR) {
+                write_obj_readers(client, src, q - (unsigned char *) src);
+                q = src;
+            }
             switch (*p) {
             case ESC_CHAR:
                 *q++ = *p;
diff --git a/src/server-obj.c b/src/server-obj.c
index be781f5..af7da74 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -892,8 +892,6 @@ int read_from_obj(obj_t *obj)
     unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     int n;
     int isEmpty;
-    ListIterator i;
-    obj_t *reader;
 
     DPRINTF((20, "Entered read_from_obj: [%s]\n", obj->name));
 
@@ -955,23 +953,39 @@ again:
          *    after the escape characters have been processed.
          */
         if (n > 0) {
-            i = list_iterator_create(obj->readers);
-            while ((reader = list_next(i))) {
-
-                if (is_logfile_obj(reader)) {
-                    write_log_data(reader, buf, n);
-                }
-                else {
-                    write_obj_data(reader, buf, n, 0);
-                }
-            }
-            list_iterator_destroy(i);
+            write_obj_readers(obj, buf, n);
         }
     }
     return(n);
 }
 
 
+void write_obj_readers(obj_t *obj, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) that was read from (obj)
+ *    into the circular-buffer of each obj in its "readers" list.
+ */
+    ListIterator i;
+    obj_t *reader;
+
+    if (!src || len <= 0) {
+        return;
+    }
+    i = list_iterator_create(obj->readers);
+    while ((reader = list_next(i))) {
+
+        if (is_logfile_obj(reader)) {
+            write_log_data(reader, src, len);
+        }
+        else {
+            write_obj_data(reader, src, len, 0);
+        }
+    }
+    list_iterator_destroy(i);
+    return;
+}
+
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
 {
 /*  Writes the buffer (src) of length (len) into the object's (obj)
diff --git a/src/server.h b/src/server.h
index 44c513c..f61a1fe 100644
--- a/src/server.h
+++ b/src/server.h
@@ -456,6 +456,8 @@ int shutdown_obj(obj_t *obj);
 
 int read_from_obj(obj_t *obj);
 
+void write_obj_readers(obj_t *obj, const void *src, int len);
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo);
 
 int write_to_obj(obj_t *obj);
-- 
2.43.0


From 4b07a38f971aaa37a97a7c38151d5f35b162e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 15/43] fix: escape the IAC byte in data sent to a telnet
 console

---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 29 +++++++++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index af7da74..84be782 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -977,6 +977,9 @@ void write_obj_readers(obj_t *obj, const void *src, int len)
         if (is_logfile_obj(reader)) {
             write_log_data(reader, src, len);
         }
+        else if (is_telnet_obj(reader)) {
+            write_telnet_data(reader, src, len);
+        }
         else {
             write_obj_data(reader, src, len, 0);
         }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index b967639..ce89e3e 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -452,6 +452,35 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
 }
 
 
+int write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) into the telnet obj's buffer.
+ *  Since the IAC byte starts a telnet command, it is sent twice
+ *    in order for it to be received as data.
+ *  Returns the number of bytes written.
+ */
+    const unsigned char iac = IAC;
+    const unsigned char *p = src;
+    const unsigned char *last = p + len;
+    const unsigned char *q;
+    int n = 0;
+
+    assert(is_telnet_obj(telnet));
+
+    while (p < last) {
+        q = memchr(p, IAC, last - p);
+        if (!q) {
+            n += write_obj_data(telnet, p, last - p, 0);
+            break;
+        }
+        n += write_obj_data(telnet, p, q - p + 1, 0);
+        n += write_obj_data(telnet, &iac, 1, 0);
+        p = q + 1;
+    }
+    return(n);
+}
+
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Sends the given telnet (cmd) and (opt) to the (telnet) console;
diff --git a/src/server.h b/src/server.h
index f61a1fe..3a737f8 100644
--- a/src/server.h
+++ b/src/server.h
@@ -505,6 +505,8 @@ int open_telnet_obj(obj_t *telnet);
 
 int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
+int write_telnet_data(obj_t *telnet, const void *src, int len);
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
 
-- 
2.43.0


From c21ae95536f2698851478511792ebdea14fdc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 16/43] fix: do not overwrite log data when processing expands
 it

---
 src/server-logfile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..8404338 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -367,7 +367,7 @@ int write_log_data(obj_t *log, const void *src, int len)
  *  Returns the number of bytes written into the logfile obj's buffer.
  */
     const int minbuf = 25;              /* cr/lf + timestamp + meta/char */
-    unsigned char buf[OBJ_BUF_SIZE - 1];
+    unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     const unsigned char *p;
     unsigned char *q;
     const unsigned char * const qLast = buf + sizeof(buf);
@@ -454,12 +454,15 @@ int write_log_data(obj_t *log, const void *src, int len)
                 *q++ = *p;
             }
         }
-        /*  Flush internal buffer before it overruns.
+        /*  Flush internal buffer before it overruns.  The obj's buffer is
+         *    written out as well since the processed data can exceed the size
+         *    of this buffer, in which case data would be overwritten.
          */
         if ((qLast - q) < minbuf) {
             assert((q >= buf) && (q <= qLast));
             n += write_obj_data(log, buf, q - buf, 0);
             q = buf;
+            (void) write_to_obj(log);
         }
     }
     assert((q >= buf) && (q <= qLast));
-- 
2.43.0


From d7b711de32059a39a014bed4571daa10d8a9e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:39 +0000
Subject: [PATCH 17/43] fix: do not let a suspend escape keep an ended session
 open

---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index 57e85fc..1eb265b 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -586,6 +586,12 @@ static void perform_suspend(obj_t *client)
  */
     assert(is_client_obj(client));
 
+    /*  A client whose session has ended (eg, its console has been stolen)
+     *    cannot suspend the remaining output and its disconnection.
+     */
+    if (client->gotEOF)
+        return;
+
     client->aux.client.gotSuspend ^= 1;
 
     if (client->aux.client.gotSuspend) {
-- 
2.43.0


From 88545728ae1c67c7d004f0ff20bbcdf622c2b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 18/43] fix: recognize client escape characters with the high
 bit set

---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..da9b36f 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -162,7 +162,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = (unsigned char) conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From 85d3709edcd15c3466a588b5479c279a2fc5fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 19/43] fix: keep unread input when the client's echo is
 toggled

---
 src/client-tty.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index da9b36f..7b133c0 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -359,7 +359,12 @@ static int perform_echo_esc(client_conf_t *conf, char c)
         return(1);
     get_tty_mode(&tty, STDIN_FILENO);
     tty.c_lflag ^= ECHO;
-    set_tty_mode(&tty, STDIN_FILENO);
+    /*
+     *  Do not use set_tty_mode() here since it would discard any input that
+     *    has been received but not yet read.
+     */
+    if (tcsetattr(STDIN_FILENO, TCSADRAIN, &tty) < 0)
+        log_err(errno, "tcsetattr() failed on fd=%d", STDIN_FILENO);
     conf->req->enableEcho ^= 1;
     return(1);
 }
-- 
2.43.0


From a79f0d76cdd4f16ce0cdfe9cc0394091bb607836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 20/43] fix: keep the client's echo setting when resumed after
 being suspended

---
 src/client-tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index 7b133c0..0efde4e 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -633,6 +633,8 @@ static int perform_suspend_esc(client_conf_t *conf, char c)
         log_err(errno, "Unable to suspend client (pid %d)", (int) getpid());
 
     get_tty_raw(&tty, STDIN_FILENO);
+    if (conf->req->enableEcho)
+        tty.c_lflag |= ECHO;
     set_tty_mode(&tty, STDIN_FILENO);
     locally_display_status(conf, "resumed");
     if (!send_esc_seq(conf, c))
-- 
2.43.0


From dc83dc2c2c3eefaa3a2ab6e49ac13522b14da863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:40 +0000
Subject: [PATCH 21/43] fix: treat a connection reset as the server terminating
 the session

---
 src/client-tty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 0efde4e..8a774f0 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -242,7 +242,7 @@ static int read_from_stdin(client_conf_t *conf)
             }
         }
         if (write_n(conf->req->sd, buf, p - buf) < 0) {
-            if (errno == EPIPE)
+            if ((errno == EPIPE) || (errno == ECONNRESET))
                 return(0);
             log_err(errno, "Unable to write to <%s:%d>",
                 conf->req->host, conf->req->port);
@@ -265,7 +265,7 @@ static int write_to_stdout(client_conf_t *conf)
      *    escape sequences.  For human input, this isn't too bad.
      */
     while ((n = read(conf->req->sd, buf, sizeof(buf))) < 0) {
-        if (errno == EPIPE)
+        if ((errno == EPIPE) || (errno == ECONNRESET))
             return(0);
         if (errno != EINTR)
             log_err(errno, "Unable to read from <%s:%d>",
@@ -293,7 +293,7 @@ static int send_esc_seq(client_conf_t *conf, char c)
     buf[1] = c;
 
     if (write_n(conf->req->sd, buf, sizeof(buf)) < 0) {
-        if (errno == EPIPE)
+        if ((errno == EPIPE) || (errno == ECONNRESET))
             return(0);
         log_err(errno, "Unable to write to <%s:%d>",
             conf->req->host, conf->req->port);
-- 
2.43.0


From c70601cea0fd0ba22782545de61433d5b06a6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:40 +0000
Subject: [PATCH 22/43] fix: restore the terminal when the client exits on an
 error

---
 src/client-tty.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index 8a774f0..6037617 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -44,6 +44,7 @@
 
 
 static void exit_handler(int signum);
+static void restore_tty(void);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
 static int send_esc_seq(client_conf_t *conf, char c);
@@ -65,6 +66,7 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 
 static int done = 0;
+static struct termios *savedTty = NULL;
 
 
 void connect_console(client_conf_t *conf)
@@ -100,6 +102,9 @@ void connect_console(client_conf_t *conf)
     posix_signal(SIGTSTP, SIG_DFL);
 
     get_tty_mode(&conf->tty, STDIN_FILENO);
+    savedTty = &conf->tty;
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
     get_tty_raw(&tty, STDIN_FILENO);
     set_tty_mode(&tty, STDIN_FILENO);
 
@@ -139,6 +144,7 @@ void connect_console(client_conf_t *conf)
         locally_display_status(conf, "terminated by server");
 
     set_tty_mode(&conf->tty, STDIN_FILENO);
+    savedTty = NULL;
     return;
 }
 
@@ -152,6 +158,17 @@ static void exit_handler(int signum)
 }
 
 
+static void restore_tty(void)
+{
+/*  Restores the terminal if the client exits on an error within
+ *    connect_console().
+ */
+    if (savedTty)
+        (void) tcsetattr(STDIN_FILENO, TCSAFLUSH, savedTty);
+    return;
+}
+
+
 static int read_from_stdin(client_conf_t *conf)
 {
 /*  Reads from stdin and writes to the socket connection.
-- 
2.43.0


From e4772733b236f24393d4c12d4946840a2d9e86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 23/43] fix: close the session cleanly if the server has
 already gone

---
 src/client-tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 6037617..debe02b 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -340,7 +340,9 @@ static int perform_close_esc(client_conf_t *conf, char c)
 
     locally_display_status(conf, "closed");
 
-    if (shutdown(conf->req->sd, SHUT_WR) < 0) {
+    /*  The connection may already have been terminated by the server.
+     */
+    if ((shutdown(conf->req->sd, SHUT_WR) < 0) && (errno != ENOTCONN)) {
         log_err(errno, "Unable to shutdown connection to <%s:%d>",
             conf->req->host, conf->req->port);
     }
-- 
2.43.0


From 3003404f32c2b1c95812bd3f87beb35c6ee74074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 24/43] fix: do not truncate patterns and names longer than the
 lexer's buffer

A quoted string of 1024 or more characters in a request was silently cut
to 1023, so a long regular expression or glob selected other consoles than
the ones it matches.
---
 src/lex.c | 25 ++++++++++++-------------
 src/lex.h |  2 --
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/lex.c b/src/lex.c
index 667ec7b..ee87fea 100644
--- a/src/lex.c
+++ b/src/lex.c
@@ -65,7 +65,7 @@ struct lexer_state {
     char          *pos;                 /* current ptr in buffer             */
     char         **toks;                /* array of recognized strings       */
     int            numtoks;             /* number of strings in toks[]       */
-    char           text[LEX_MAX_STR];   /* tmp buffer for lexed strings      */
+    char          *text;                /* tmp buffer for lexed strings      */
     int            prev;                /* prev token returned by lex_next() */
     int            line;                /* current line number in buffer     */
     int            gotEOL;              /* true if next token is on new line */
@@ -85,15 +85,6 @@ static int validate_sorted_tokens(char *toks[]);
 static int lookup_token(char *str, char *toks[], int numtoks);
 
 
-/************\
-**  Macros  **
-\************/
-
-#ifndef MIN
-#  define MIN(x,y) (((x) <= (y)) ? (x) : (y))
-#endif /* !MIN */
-
-
 /***************\
 **  Functions  **
 \***************/
@@ -108,6 +99,13 @@ Lex lex_create(void *buf, char *toks[])
     if (!(l = (Lex) malloc(sizeof(struct lexer_state)))) {
         return(out_of_memory());
     }
+    /*  No token is longer than the buffer, but a single-character token
+     *    still needs room for itself and the terminating NUL.
+     */
+    if (!(l->text = (char *) malloc(strlen(buf) + 2))) {
+        free(l);
+        return(out_of_memory());
+    }
     l->pos = buf;
     l->toks = toks;
     if (!toks) {
@@ -133,6 +131,7 @@ void lex_destroy(Lex l)
     assert(l->magic == LEX_MAGIC);
 
     assert((l->magic = 1));             /* clear magic via assert abuse */
+    free(l->text);
     free(l);
     return;
 }
@@ -181,7 +180,7 @@ int lex_next(Lex l)
         case '\'':
             for (p=l->pos+1; *p && *p!=*l->pos && *p!='\r' && *p!='\n'; p++){;}
             if (*p == *l->pos) {        /* valid string */
-                len = MIN(p - l->pos - 1, LEX_MAX_STR - 1);
+                len = p - l->pos - 1;
                 memcpy(l->text, l->pos + 1, len);
                 l->text[len] = '\0';
                 l->pos = p + 1;
@@ -207,7 +206,7 @@ int lex_next(Lex l)
         default:
             if (isalpha((int)*l->pos) || (*l->pos == '_')) {
                 for (p=l->pos+1; *p && (isalnum((int)*p) || *p=='_'); p++) {;}
-                len = MIN(p - l->pos, LEX_MAX_STR - 1);
+                len = p - l->pos;
                 memcpy(l->text, l->pos, len);
                 l->text[len] = '\0';
                 l->pos = p;
@@ -218,7 +217,7 @@ int lex_next(Lex l)
               && isdigit((int)*(l->pos+1)))) {
                 /* integer: [-+]?[0-9]+ */
                 for (p=l->pos+1; *p && isdigit((int)*p); p++) {;}
-                len = MIN(p - l->pos, LEX_MAX_STR - 1);
+                len = p - l->pos;
                 memcpy(l->text, l->pos, len);
                 l->text[len] = '\0';
                 l->pos = p;
diff --git a/src/lex.h b/src/lex.h
index f281057..05841f6 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -59,8 +59,6 @@
 **  Constants  **
 \***************/
 
-#define LEX_MAX_STR 1024                /* max length of lexer string        */
-
 enum common_tokens {
     LEX_ERR = -1,                       /* lex error token                   */
     LEX_EOF = 0,                        /* end-of-file/buffer token          */
-- 
2.43.0


From 28bd84e50e9ca94f0e02312243ded5cf7e0b244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 25/43] fix: do not keep a console whose log file was refused

---
 src/server-conf.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 2e2e48a..03beee4 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -776,7 +776,7 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
     char        *host = NULL;
     int          port;
     char        *path = NULL;
-    obj_t       *console;
+    obj_t       *console = NULL;
     seropt_t     seropts;
 #if WITH_FREEIPMI
     ipmiopt_t    ipmiopts;
@@ -949,6 +949,17 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
 
 err:
     errbuf[ errbuflen - 1 ] = '\0';
+    if (console) {
+        /*
+         *  The log file was refused, so the console must not remain.
+         */
+#if WITH_FREEIPMI
+        if (is_ipmi_obj(console)) {
+            conf->numIpmiObjs--;
+        }
+#endif /* WITH_FREEIPMI */
+        (void) list_delete_all(conf->objs, (ListFindF) find_obj, console);
+    }
     list_destroy(args);
     destroy_string(host);
     destroy_string(path);
-- 
2.43.0


From 34fc311096e4e9e6f21a3c9af01ae787e9d94ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 26/43] fix: compare the names of log files after expansion
 when looking for duplicates

---
 src/server-logfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 8404338..cd1d826 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -155,7 +155,7 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         }
         return(NULL);
     }
-    logfile = create_obj(conf, name, -1, CONMAN_OBJ_LOGFILE);
+    logfile = create_obj(conf, pname, -1, CONMAN_OBJ_LOGFILE);
     logfile->aux.logfile.console = console;
     logfile->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
     logfile->aux.logfile.opts = *opts;
-- 
2.43.0


From ed532b7eadf5f886455d633e275f6e72d4d92c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 27/43] fix: keep the TIMESTAMP interval in force when a later
 one is invalid

---
 src/server-conf.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 03beee4..67649b0 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1434,36 +1434,43 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "invalid %s value %d", tokstr, n);
             }
             else {
-                conf->tStampMinutes = n;
+                int units = 1;          /* minutes; 0 if invalid */
+
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
                     done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
-                    if (lex_text(l)[1] != '\0') {
-                        conf->tStampMinutes = -1;
+                    if (lex_text(l)[0] == '\0' || lex_text(l)[1] != '\0') {
+                        units = 0;
                     }
                     else if (lex_text(l)[0] == 'm' || lex_text(l)[0] == 'M') {
                         ; /* no-op */
                     }
                     else if (lex_text(l)[0] == 'h' || lex_text(l)[0] == 'H') {
-                        conf->tStampMinutes *= 60;
+                        units = 60;
                     }
                     else if (lex_text(l)[0] == 'd' || lex_text(l)[0] == 'D') {
-                        conf->tStampMinutes *= 60 * 24;
+                        units = 60 * 24;
                     }
                     else {
-                        conf->tStampMinutes = -1;
+                        units = 0;
                     }
                 }
                 else {
-                    conf->tStampMinutes = -1;
+                    units = 0;
                 }
 
-                if (conf->tStampMinutes < 0) {
-                    conf->tStampMinutes = 0;
+                if (units == 0) {
                     snprintf(err, sizeof(err),
                         "expected (m|d|h) qualifier for %s value", tokstr);
                 }
+                else if (n > INT_MAX / units) {
+                    snprintf(err, sizeof(err),
+                        "invalid %s value %d", tokstr, n);
+                }
+                else {
+                    conf->tStampMinutes = n * units;
+                }
             }
             break;
 
-- 
2.43.0


From bedc8efe9f0ae8008990345bfdaa484118a21bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 28/43] fix: keep the LOGFILE in force when a later one has an
 invalid priority

---
 src/server-conf.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 67649b0..949a156 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1263,23 +1263,30 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "expected STRING for %s value", tokstr);
             }
             else {
-                destroy_string(conf->logFileName);
+                char *q;
+
                 if ((lex_text(l)[0] != '/') && (conf->logDirName)) {
-                    conf->logFileName = create_format_string("%s/%s",
+                    q = create_format_string("%s/%s",
                         conf->logDirName, lex_text(l));
                 }
                 else {
-                    conf->logFileName = create_string(lex_text(l));
+                    q = create_string(lex_text(l));
                 }
-                if ((p = strrchr(conf->logFileName, ','))) {
+                n = conf->logFileLevel;
+                if ((p = strrchr(q, ','))) {
                     *p++ = '\0';
                     if ((n = lookup_syslog_priority(p)) < 0) {
                         snprintf(err, sizeof(err),
                             "invalid %s priority \"%s\"", tokstr, p);
                     }
-                    else {
-                        conf->logFileLevel = n;
-                    }
+                }
+                if (n < 0) {
+                    destroy_string(q);
+                }
+                else {
+                    destroy_string(conf->logFileName);
+                    conf->logFileName = q;
+                    conf->logFileLevel = n;
                 }
             }
             break;
-- 
2.43.0


From 33afd6f2857c727e40cb12ff6389a0869562deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 29/43] fix: do not abort on a console device without a host

---
 src/server-telnet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index ce89e3e..de16132 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -80,6 +80,9 @@ int is_telnet_dev(const char *dev, char **host_ref, int *port_ref)
     if (p[ n + 1 ] != '\0') {
         return(0);
     }
+    if (p == buf) {                     /* no host */
+        return(0);
+    }
     *p++ = '\0';
     if (host_ref) {
         *host_ref = create_string(buf);
-- 
2.43.0


From 1b09e658842d74c9be30e37296da4dc10a0e0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 30/43] fix: reject port numbers that are out of range instead
 of wrapping them

---
 src/server-conf.c   | 5 +++--
 src/server-telnet.c | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 949a156..88bed9b 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -344,7 +344,8 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[])
             printf("%s", conman_license);
             exit(0);
         case 'p':
-            if ((conf->port = atoi(optarg)) < 0) {
+            conf->port = atoi(optarg);
+            if ((conf->port < 0) || (conf->port > 65535)) {
                 log_err(0, "CMDLINE: invalid port \"%s\"", optarg);
             }
             break;
@@ -1354,7 +1355,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                 snprintf(err, sizeof(err),
                     "expected INTEGER for %s value", tokstr);
             }
-            else if ((n = atoi(lex_text(l))) < 0) {
+            else if (((n = atoi(lex_text(l))) < 0) || (n > 65535)) {
                 snprintf(err, sizeof(err),
                     "invalid %s value %d", tokstr, n);
             }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index de16132..bbd1808 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -65,6 +65,7 @@ int is_telnet_dev(const char *dev, char **host_ref, int *port_ref)
     char  buf[MAX_LINE];
     char *p;
     int   n;
+    long  port;
 
     assert(dev != NULL);
 
@@ -84,11 +85,15 @@ int is_telnet_dev(const char *dev, char **host_ref, int *port_ref)
         return(0);
     }
     *p++ = '\0';
+    port = strtol(p, NULL, 10);
+    if ((port < 1) || (port > 65535)) {
+        return(0);
+    }
     if (host_ref) {
         *host_ref = create_string(buf);
     }
     if (port_ref) {
-        *port_ref = atoi(p);
+        *port_ref = (int) port;
     }
     return(1);
 }
-- 
2.43.0


From 9b00dc108997c2dd0aa56a3bd3508ba466be8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 31/43] fix: report serial options that do not start with a
 number

---
 src/server-serial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..09ba425 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -151,6 +151,12 @@ int parse_serial_opts(
     n = sscanf(str, "%d,%d%c%d", &bpsTmp, &optsTmp.databits,
         &parityTmp, &optsTmp.stopbits);
 
+    if (n < 1) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen,
+                "expected INTEGER >0 for bps setting");
+        return(-1);
+    }
     if (n >= 1) {
         optsTmp.bps = int_to_bps(bpsTmp);
         if (optsTmp.bps <= 0) {
-- 
2.43.0


From a3997b6a5bf799f5b091cc20b32725bd848127fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 32/43] fix: write the pid file only once the daemon holds its
 port

A daemon that then failed to start (no consoles, or the port in use) left
its pid file behind; when the configuration file had been replaced since,
it even overwrote that of the running daemon, which the control options
could then no longer find.
---
 src/server-conf.c | 6 ++++++
 src/server.c      | 1 +
 src/server.h      | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 88bed9b..490c009 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -471,6 +471,12 @@ void process_config(server_conf_t *conf)
             conf->logFmtName = create_string(conf->logFileName);
         }
     }
+    return;
+}
+
+
+void create_pidfile(server_conf_t *conf)
+{
     if (conf->pidFileName) {
         if (write_pidfile(conf->pidFileName) < 0) {
             free(conf->pidFileName);
diff --git a/src/server.c b/src/server.c
index c933ea9..731dbaf 100644
--- a/src/server.c
+++ b/src/server.c
@@ -127,6 +127,7 @@ int main(int argc, char *argv[])
         schedule_timestamp(conf);
     }
     create_listen_socket(conf);
+    create_pidfile(conf);
 
     if (!conf->enableForeground) {
         if (conf->syslogFacility > 0) {
diff --git a/src/server.h b/src/server.h
index 3a737f8..4bdbf1a 100644
--- a/src/server.h
+++ b/src/server.h
@@ -379,6 +379,8 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[]);
 
 void process_config(server_conf_t *conf);
 
+void create_pidfile(server_conf_t *conf);
+
 
 /*  server-esc.c
  */
-- 
2.43.0


From c96c1b5cb84694a1acb3859cd94da9d64fdaf643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 33/43] fix: do not lose a signal that arrives outside of
 poll()

A SIGHUP or SIGTERM that arrived after its flag was checked but before
poll() was entered (or was handled by another thread) was not acted upon
until something else happened; a SIGHUP that arrived while the logfiles
were being reopened was forgotten.
---
 src/server.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 731dbaf..267437a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -60,6 +60,7 @@ static void setup_signals(server_conf_t *conf);
 static void sig_chld_handler(int signum);
 static void sig_hup_handler(int signum);
 static void exit_handler(int signum);
+static void wake_mux(void);
 static void coredump_handler(int signum);
 static char ** get_sane_env(void);
 static void display_configuration(server_conf_t *conf);
@@ -78,6 +79,7 @@ static void resume_listen_socket(server_conf_t *conf);
  */
 static volatile sig_atomic_t done = 0;
 static volatile sig_atomic_t reconfig = 0;
+static int sig_fds[2] = { -1, -1 };     /* pipe for waking mux_io()'s poll */
 static int coredump = 0;
 static char coredumpdir[PATH_MAX];
 
@@ -354,6 +356,17 @@ static void setup_coredump(server_conf_t *conf)
 
 static void setup_signals(server_conf_t *conf)
 {
+    /*  A signal that arrives after its flag was checked but before poll() has
+     *    been entered does not interrupt it; the pipe ensures poll() returns.
+     */
+    if (pipe(sig_fds) < 0) {
+        log_err(errno, "Unable to create signal pipe");
+    }
+    set_fd_nonblocking(sig_fds[0]);
+    set_fd_nonblocking(sig_fds[1]);
+    set_fd_closed_on_exec(sig_fds[0]);
+    set_fd_closed_on_exec(sig_fds[1]);
+
     posix_signal(SIGCHLD, sig_chld_handler);
     posix_signal(SIGHUP, sig_hup_handler);
     posix_signal(SIGINT, exit_handler);
@@ -384,6 +397,7 @@ static void sig_chld_handler(int signum)
 static void sig_hup_handler(int signum)
 {
     reconfig = signum;
+    wake_mux();
     return;
 }
 
@@ -391,6 +405,21 @@ static void sig_hup_handler(int signum)
 static void exit_handler(int signum)
 {
     done = signum;
+    wake_mux();
+    return;
+}
+
+
+static void wake_mux(void)
+{
+/*  Wakes mux_io() from within a signal handler.
+ */
+    int errno_bak = errno;
+
+    if (write(sig_fds[1], "", 1) < 0) {
+        ; /* a full pipe already suffices to wake it */
+    }
+    errno = errno_bak;
     return;
 }
 
@@ -758,6 +787,7 @@ static void mux_io(server_conf_t *conf)
     obj_t *obj;
     int inevent_fd;
     int rvr, rvw;
+    char buf[16];
 
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
@@ -766,6 +796,7 @@ static void mux_io(server_conf_t *conf)
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
     }
+    tpoll_set(conf->tp, sig_fds[0], POLLIN);
     i = list_iterator_create(conf->objs);
 
     while (!done) {
@@ -776,8 +807,8 @@ static void mux_io(server_conf_t *conf)
              *    and reset reconnect timers of "downed" telnet objs.
              */
             log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
-            reopen_logfiles(conf);
             reconfig = 0;
+            reopen_logfiles(conf);
         }
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
@@ -787,6 +818,11 @@ static void mux_io(server_conf_t *conf)
                 break;
             }
         }
+        if ((n > 0) &&
+                (tpoll_is_set(conf->tp, sig_fds[0], POLLIN) > 0)) {
+            n--;
+            while (read(sig_fds[0], buf, sizeof(buf)) > 0) {;}
+        }
         if ((n > 0) &&
                 (tpoll_is_set(conf->tp, conf->ld, POLLIN) > 0)) {
             n--;
-- 
2.43.0


From cdcbef71780b4e6e61f5fe8bc3cabd02b2f16ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 34/43] fix: keep errno across the SIGCHLD handler

A child that ended right after an interrupted or blocked read or write
turned its EINTR or EAGAIN into ECHILD, and the connection was closed.
---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index 267437a..5350b39 100644
--- a/src/server.c
+++ b/src/server.c
@@ -387,9 +387,11 @@ static void setup_signals(server_conf_t *conf)
 
 static void sig_chld_handler(int signum)
 {
+    int errno_bak = errno;
     pid_t pid;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = errno_bak;
     return;
 }
 
-- 
2.43.0


From 5920f880012ef60b6bd92145829e1539c0c7aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:29 +0000
Subject: [PATCH 35/43] fix: do not refuse valid test options because of an
 earlier error

---
 src/server-conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 490c009..25d85ad 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -912,6 +912,7 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
             goto err;
         }
         testopts = conf->globalTestOpts;
+        errno = 0;                      /* examined when parsing test options */
         if (con_p->topts && parse_test_opts(
                 &testopts, con_p->topts, errbuf, errbuflen) < 0) {
             goto err;
@@ -1087,6 +1088,7 @@ static void parse_global_directive(server_conf_t *conf, Lex l)
                     "expected STRING for %s value", tokstr);
             }
             else {
+                errno = 0;              /* examined when parsing test options */
                 parse_test_opts(&conf->globalTestOpts, lex_text(l),
                     err, sizeof(err));
             }
-- 
2.43.0


From 49aacbf2bac5ed3fb2257370054756d551038942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 36/43] fix: keep the pollfd array that poll() is using until
 it returns

---
 src/tpoll.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..acdc895 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -84,6 +84,7 @@ typedef struct tpoll_timer * _tpoll_timer_t;
 
 struct tpoll {
     struct pollfd   *fd_array;          /* poll fd array                     */
+    struct pollfd   *fd_array_polled;   /* fd array in use by poll()         */
     int              fd_pipe[ 2 ];      /* signal pipe for unblocking poll() */
     int              num_fds_alloc;     /* num pollfd structs allocated      */
     int              num_fds_used;      /* num pollfd structs in use         */
@@ -147,6 +148,7 @@ tpoll_create (int n)
     if (!(tp = malloc (sizeof (struct tpoll)))) {
         goto err;
     }
+    tp->fd_array_polled = NULL;
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
     tp->is_blocked = false;
@@ -567,6 +569,8 @@ tpoll (tpoll_t tp, int ms)
  */
     struct timeval  tv_timeout;
     struct timeval  tv_now;
+    struct pollfd  *fds;
+    nfds_t          num_fds;
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
@@ -652,19 +656,24 @@ tpoll (tpoll_t tp, int ms)
         /*  Poll for events, discarding any on the "signaling pipe".
          */
         tp->is_blocked = true;
+        fds = tp->fd_array_polled = tp->fd_array;
+        num_fds = tp->max_fd + 1;
 
         if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to unlock tpoll mutex");
         }
         DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, tp->max_fd));
-        n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        n = poll (fds, num_fds, timeout);
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
 
         if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to lock tpoll mutex");
         }
         tp->is_blocked = false;
-
+        tp->fd_array_polled = NULL;
+        if (fds != tp->fd_array) {
+            free (fds);
+        }
         if (n < 0) {
             break;
         }
@@ -845,12 +854,19 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     if (num_fds_tmp < num_fds_req) {
         num_fds_tmp = num_fds_req;
     }
-    /*  Force tpoll()'s poll() to unblock before we realloc the fd_array.
-     *  Then tpoll() will have to re-acquire the mutex before continuing.
-     *  Since we currently have the mutex, we can now safely realloc fd_array.
+    /*  Force tpoll()'s poll() to unblock so it will use the new fd_array.
+     *  Until then, poll() is still using the array it was given, and will write
+     *  to it before returning.  That array is freed by tpoll() afterwards.
      */
     _tpoll_signal_send (tp);
-    if (!(fd_array_tmp =
+    if (tp->fd_array == tp->fd_array_polled) {
+        if (!(fd_array_tmp = malloc (num_fds_tmp * sizeof (struct pollfd)))) {
+            return (-1);
+        }
+        memcpy (fd_array_tmp, tp->fd_array,
+            tp->num_fds_alloc * sizeof (struct pollfd));
+    }
+    else if (!(fd_array_tmp =
             realloc (tp->fd_array, num_fds_tmp * sizeof (struct pollfd)))) {
         return (-1);
     }
-- 
2.43.0


From 9b73a3737fbb75aee6b1490a5739035c9e5e3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 37/43] fix: do not spin until a timer that is more than 24
 days away

---
 src/tpoll.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index acdc895..fc573ce 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <pthread.h>
 #include <stdlib.h>
@@ -909,11 +910,12 @@ _tpoll_get_timeval (struct timeval *tvp, int ms)
 static int
 _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
 {
-/*  Returns the millisecond difference between [tvp1] and [tvp0].
+/*  Returns the millisecond difference between [tvp1] and [tvp0],
+ *    or the int nearest to it if the difference is too large.
  *  If either is NULL, the current time will be used in its place.
  */
     struct timeval tv;
-    int            ms;
+    long long      ms;
 
     if (!tvp0 || !tvp1) {
         if (gettimeofday (&tv, NULL) < 0) {
@@ -926,7 +928,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
-    ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
+    ms = ( ((long long) tvp1->tv_sec - tvp0->tv_sec) * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
      *  Round to the next millisecond.
@@ -939,5 +941,11 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             && (tvp1->tv_usec < tvp0->tv_usec)) {
         ms--;
     }
-    return (ms);
+    if (ms > INT_MAX) {
+        return (INT_MAX);
+    }
+    if (ms < INT_MIN) {
+        return (INT_MIN);
+    }
+    return ((int) ms);
 }
-- 
2.43.0


From 607fef050f87573a8f43f68179f07ad237c37a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 38/43] fix: make room for tpoll's own pipe in its pollfd array

---
 src/tpoll.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index fc573ce..a3912f3 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -150,6 +150,7 @@ tpoll_create (int n)
         goto err;
     }
     tp->fd_array_polled = NULL;
+    tp->fd_array = NULL;
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
     tp->is_blocked = false;
@@ -157,11 +158,6 @@ tpoll_create (int n)
     tp->is_signaled = false;
     tp->is_mutex_inited = false;
 
-    if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
-        goto err;
-    }
-    tp->num_fds_alloc = n;
-
     if (pipe (tp->fd_pipe) < 0) {
         goto err;
     }
@@ -176,6 +172,14 @@ tpoll_create (int n)
             goto err;
         }
     }
+    if (n <= tp->fd_pipe[ 0 ]) {
+        n = tp->fd_pipe[ 0 ] + 1;       /* fd_array[] is indexed by the fd */
+    }
+    if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
+        goto err;
+    }
+    tp->num_fds_alloc = n;
+
     if ((e = pthread_mutex_init (&tp->mutex, NULL)) != 0) {
         errno = e;
         goto err;
-- 
2.43.0


From 436bd0fa8438f87eb3626fb780b9f4d992193c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:38 +0000
Subject: [PATCH 39/43] fix: do not report an earlier event for an fd that is
 being added

---
 src/tpoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index a3912f3..7a52dc2 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -410,7 +410,7 @@ tpoll_set (tpoll_t tp, int fd, short int events)
     else {
         if (tp->fd_array[ fd ].fd < 0) {
             assert (tp->fd_array[ fd ].events == 0);
-            assert (tp->fd_array[ fd ].revents == 0);
+            tp->fd_array[ fd ].revents = 0;
             tp->fd_array[ fd ].fd = fd;
             tp->num_fds_used++;
             if (fd > tp->max_fd) {
-- 
2.43.0


From 32cdf128568815abf5bb080ff9dd08911965e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:12 +0000
Subject: [PATCH 40/43] fix: do not count tpoll's own pipe when the fds are
 zeroed as it wakes

---
 src/tpoll.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 7a52dc2..af2d78c 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -175,7 +175,7 @@ tpoll_create (int n)
     if (n <= tp->fd_pipe[ 0 ]) {
         n = tp->fd_pipe[ 0 ] + 1;       /* fd_array[] is indexed by the fd */
     }
-    if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
+    if (!(tp->fd_array = calloc (n, sizeof (struct pollfd)))) {
         goto err;
     }
     tp->num_fds_alloc = n;
@@ -724,6 +724,7 @@ _tpoll_init (tpoll_t tp, tpoll_zero_t how)
  *  This routine assumes the [tp] mutex is already locked.
  */
     int            i;
+    short int      revents;
     _tpoll_timer_t t;
 
     assert (tp != NULL);
@@ -732,12 +733,17 @@ _tpoll_init (tpoll_t tp, tpoll_zero_t how)
     assert ((how & ~TPOLL_ZERO_ALL) == 0);
 
     if (how & TPOLL_ZERO_FDS) {
+        /*
+         *  Keep the pipe's revents since tpoll() may have yet to examine them.
+         */
+        revents = tp->fd_array[ tp->fd_pipe[ 0 ] ].revents;
         memset (tp->fd_array, 0, tp->num_fds_alloc * sizeof (struct pollfd));
         for (i = 0; i < tp->num_fds_alloc; i++) {
             tp->fd_array[ i ].fd = -1;
         }
         tp->fd_array[ tp->fd_pipe[ 0 ] ].fd = tp->fd_pipe[ 0 ];
         tp->fd_array[ tp->fd_pipe[ 0 ] ].events = POLLIN;
+        tp->fd_array[ tp->fd_pipe[ 0 ] ].revents = revents;
         tp->max_fd = tp->fd_pipe[ 0 ];
         tp->num_fds_used = 0;
     }
-- 
2.43.0


From 0ce444e6e11da9c247b44f69f0b993dda30462a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:08 +0000
Subject: [PATCH 41/43] fix: do not leak the sockets of clients being served
 into child processes

A client's socket was only set close-on-exec once its session became an
object, so a console process or reset command started meanwhile inherited
it and kept the connection open after the daemon had closed it.
---
 src/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.c b/src/server.c
index 5350b39..6c5be30 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1044,6 +1044,7 @@ static void accept_client(server_conf_t *conf)
      *  Consequently, we force the new fd to be blocking here for portability.
      */
     set_fd_blocking(sd);
+    set_fd_closed_on_exec(sd);
 
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
-- 
2.43.0


From 5df2e4edd0403a39bb055a3d776cb42f5fc29fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:05 +0000
Subject: [PATCH 42/43] fix: turn off the remaining input conversions of a raw
 tty

A console device (or a user's terminal) that had been left with INLCR,
IGNCR, IUCLC or PARMRK set had its input altered.
---
 src/common.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..bb32341 100644
--- a/src/common.c
+++ b/src/common.c
@@ -183,10 +183,15 @@ void get_tty_raw(struct termios *tty, int fd)
 
     get_tty_mode(tty, fd);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
-     *    stripping 8th bit on input, and output flow control.
+    /*  Disable SIGINT on BREAK, marking of parity errors, CR & NL mapping,
+     *    ignoring CR, input parity check, stripping 8th bit on input,
+     *    and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &= ~(BRKINT | PARMRK | ICRNL | INLCR | IGNCR | INPCK
+        | ISTRIP | IXON);
+#ifdef IUCLC
+    tty->c_iflag &= ~IUCLC;
+#endif /* IUCLC */
 
     /*  Disable output processing.
      */
-- 
2.43.0


From 5c69deae6b165ca685cd673e3e2a8a56d6b2b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:29 +0000
Subject: [PATCH 43/43] fix: a serial line that cannot be set must not end the
 daemon

A serial console on a device that cannot change its settings any further
(eg, a pty with 7 data bits) ended the daemon when it was reopened.
---
 src/server-serial.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server-serial.c b/src/server-serial.c
index 09ba425..1df917d 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -440,7 +440,15 @@ int open_serial_obj(obj_t *serial)
     get_tty_mode(&serial->aux.serial.tty, fd);
     get_tty_raw(&tty, fd);
     set_serial_opts(&tty, serial, &serial->aux.serial.opts);
-    set_tty_mode(&tty, fd);
+    /*
+     *  Do not use set_tty_mode() here since its failure is fatal, and
+     *    tcsetattr() fails if none of the changes are possible (eg, a pty
+     *    cannot use 7 bits/char): one console should not stop the others.
+     */
+    if (tcsetattr(fd, TCSAFLUSH, &tty) < 0) {
+        log_msg(LOG_WARNING, "Unable to set [%s] device \"%s\" attributes: %s",
+            serial->name, serial->aux.serial.dev, strerror(errno));
+    }
     serial->fd = fd;
     serial->gotEOF = 0;
     tpoll_set(tp_global, serial->fd, POLLIN);
-- 
2.43.0

