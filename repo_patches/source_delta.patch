From 4f5ae873a02f792be94dbe2cad8de5f626a1a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 01/40] fix: Keep reading requests after NOOP

The server answered NOOP with OKAY but never waited for the next request,
so the session hung until the client gave up or the timeout fired.
---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..6de587e 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From a6d50e0cc82bd42f515a46396e77fb2f0803d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 02/40] fix: Refuse submitted data which contains null bytes

The authorization check looked at the data up to the first null byte, but
all of the data was queued.  A client could append arbitrary commands
after an authorized command and a null byte.
---
 src/server/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 6de587e..69b320f 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -234,7 +234,8 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	if (strlen(data) == connection->input_length
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From fca5f57db853cb993a423575d70369c55b7309f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 03/40] fix: Don't truncate the size announced by PUSH requests

Sizes beyond the range of an int wrapped around, so that a size beyond the
configured maximum was accepted and a different number of bytes was read.
---
 src/server/server.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 69b320f..20ee560 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,7 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -190,7 +191,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 {
 	connection_state *connection = tls->data;
 	char *args[2];
-	int data_size;
+	long data_size;
 
 	info("%s C: %s", tls->peer, line);
 
@@ -202,12 +203,13 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = strtol(args[1], NULL, 10)) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
-		} else if (connection->ctx->max_command_size > 0
-		    && (size_t)data_size > connection->ctx->max_command_size) {
+		} else if (data_size > INT_MAX
+		    || (connection->ctx->max_command_size > 0
+		    && (size_t)data_size > connection->ctx->max_command_size)) {
 			warning("Command from %s too long", tls->peer);
 			send_response(tls, "FAIL PUSH data size too large");
 			tls_read_line(tls, handle_connection);
-- 
2.43.0


From 35ae1b314eab244dd3ea58ebfb89a98c57817dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 04/40] fix: Require the opening bracket of the command's
 timestamp

Any text up to the first closing bracket was accepted as a timestamp.
---
 src/server/auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..c698b20 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -104,7 +104,8 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	if (*skip_whitespace(command) != '['
+	    || (command = strchr(command, ']')) == NULL) {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
-- 
2.43.0


From 858a49b4498fe930eb2877d188a90188e65c98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 05/40] fix: Anchor authorization patterns which contain
 alternation

The implicit anchors (and, for host and service patterns, the other fields)
only applied to the outer alternatives of a pattern such as "foo|bar", so
commands which merely contained a match were accepted.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From fce770cc8fd497ac883628c68d1bd624c0f1ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 06/40] fix: Release the temporary file if writing or closing
 it fails

---
 src/server/fifo.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..da80d62 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,19 +402,23 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
 		if (close_dump_file(fifo))
 			fifo_write(fifo, command, strlen(command), free);
+		else
+			free(command);
 	}
 
 	if (buffers_exceed_pipe_size(fifo))
@@ -477,6 +481,8 @@ sync_dump_data(fifo_state *fifo)
 	command = make_process_file_command(fifo);
 	if (close_dump_file(fifo))
 		fifo_write(fifo, command, strlen(command), free);
+	else
+		free(command);
 }
 
 #endif
-- 
2.43.0


From 17df146cfac302625b7256f5ba151a40c2110562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 07/40] fix: Finish an outstanding asynchronous write on
 shutdown

---
 src/server/fifo.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index da80d62..90ff463 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -98,6 +98,7 @@ static void write_cb(EV_P_ ev_io *, int);
 static void async_dump_data(fifo_state *);
 static void async_signal_handler(int, siginfo_t *, void *);
 static void async_cb(EV_P_ ev_async *, int);
+static void async_finish(fifo_state *);
 #else
 static void idle_cb(EV_P_ ev_idle *, int);
 static void timeout_cb(EV_P_ ev_timer *, int);
@@ -203,6 +204,7 @@ fifo_stop(fifo_state *fifo)
 #if HAVE_POSIX_AIO
 	if (ev_is_active(&fifo->async_watcher))
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+	async_finish(fifo);
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
@@ -425,6 +427,26 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 		dispatch_data(fifo);
 }
 
+/*
+ * Wait for an outstanding request (if any), as the control block and the data
+ * must not be released before the request is completed.
+ */
+static void
+async_finish(fifo_state *fifo)
+{
+	const struct aiocb *requests[1];
+
+	if (fifo->dump_file == NULL)
+		return;
+
+	requests[0] = &fifo->async_cb;
+	while (aio_error(&fifo->async_cb) == EINPROGRESS)
+		(void)aio_suspend(requests, 1, NULL);
+
+	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
+	(void)close_dump_file(fifo);
+}
+
 #else
 
 static void
-- 
2.43.0


From 10b07d09246e6b4fae31d613a7655a72610fd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 08/40] fix: Don't modify the active timer for reopening the
 command file

---
 src/server/fifo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index 90ff463..ad55624 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -265,7 +265,7 @@ open_cb(EV_P_ ev_timer *w, int revents)
 			dispatch_data(fifo);
 	}
 
-	if (fifo->fd == -1) {
+	if (fifo->fd == -1 && !ev_is_active(w)) {
 		ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);
 		ev_timer_start(EV_A_ w);
 	}
-- 
2.43.0


From db84e2501f90135c39561c0cb7d10a09d3a49e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 09/40] fix: Don't let input and output callbacks feed each
 other forever

While both an input and an output callback of a TLS connection were
waiting for I/O, each of them fed an event to the other one, so that the
event loop never got to polling or handling timers again.
---
 src/common/tls.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..9e0543f 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -60,10 +60,9 @@
  *   stream and vice versa (i.e., there's only a single state of an SSL
  *   connection), such a call has to be followed by a check whether the `ev_io'
  *   watcher for the opposite I/O direction is currently active.  If so, we use
- *   ev_feed_event() to feed the event that watcher is waiting for into the
- *   event loop (we check the `events' member of the `ev_io' struct to find out
- *   whether it's EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write()
- *   call, which updates the state of that stream.
+ *   ev_feed_event() to feed an EV_CUSTOM event for that watcher into the event
+ *   loop.  This forces an SSL_read()/SSL_write() call, which updates the state
+ *   of that stream.
  *
  * For additional explanations, see the relevant OpenSSL man pages and the
  * following thread:
@@ -647,12 +646,13 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+read_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
+	if (revents & (EV_READ | EV_WRITE))
+		reset_watcher_state(EV_A_ &tls->write_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
@@ -664,12 +664,13 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+write_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
+	if (revents & (EV_READ | EV_WRITE))
+		reset_watcher_state(EV_A_ &tls->read_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	do {
@@ -885,7 +886,12 @@ reset_watcher_state(EV_P_ ev_io *w)
 	if (ev_is_active(w)) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
-		ev_feed_event(EV_A_ w, w->events);
+		/*
+		 * The EV_CUSTOM event won't make the other callback call this
+		 * function in turn.  Otherwise, the two callbacks would feed
+		 * each other forever while both of them are waiting for I/O.
+		 */
+		ev_feed_event(EV_A_ w, EV_CUSTOM);
 	}
 }
 
-- 
2.43.0


From 0d452a021cb9d0396564e4e9f2d75ab61e5cc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 10/40] fix: Close the connection if setting up the TLS object
 fails

---
 src/common/tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9e0543f..cbb6907 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -534,7 +534,9 @@ tls_free(tls_state *tls)
 	if (tls->peer != NULL)
 		free(tls->peer);
 	if (tls->ssl != NULL)
-		SSL_free(tls->ssl);
+		SSL_free(tls->ssl); /* This includes the BIO object. */
+	else if (tls->bio != NULL)
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From 8344c298bb3055b888204227f982a5542e933810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 11/40] fix: Release the client identity if the TLS handshake
 fails

The identity stored by check_psk() was leaked if the connection was ended
before the handshake was completed, or if the key was requested repeatedly.
---
 src/common/tls.c  | 10 +++++++---
 src/server/auth.c | 11 +++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index cbb6907..d60563b 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -533,9 +533,10 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		free(SSL_get_app_data(tls->ssl)); /* See check_psk(). */
 		SSL_free(tls->ssl); /* This includes the BIO object. */
-	else if (tls->bio != NULL)
+	} else if (tls->bio != NULL)
 		BIO_free_all(tls->bio);
 
 	free(tls);
@@ -635,10 +636,13 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 		debug("TLS handshake with %s not (yet) successful", tls->addr);
 		check_tls_error(EV_A_ w, result);
 	} else { /* The TLS connection is established. */
-		if ((tls->id = SSL_get_app_data(tls->ssl)) == NULL) {
+		const char *id = SSL_get_app_data(tls->ssl);
+
+		if (id == NULL) {
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			tls->id = xstrdup(id);
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index c698b20..68f1c98 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -55,6 +56,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 {
 	cfg_t *auth;
 	const char *configured_pw;
+	char *id, *previous_id;
 	size_t password_len;
 
 	if ((auth = hash_lookup(identity)) == NULL
@@ -66,12 +68,17 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 
 	/*
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
-	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
+	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves.
+	 * This function might be called multiple times per connection.
 	 */
-	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
+	id = xstrdup(identity);
+	previous_id = SSL_get_app_data(ssl);
+	if (SSL_set_app_data(ssl, id) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
+		free(id);
 		return 0;
 	}
+	free(previous_id);
 
 	configured_pw = cfg_getstr(auth, "password");
 	password_len = MIN(strlen(configured_pw), max_password_len);
-- 
2.43.0


From 07390ea26e6bdfa6114214927e10a3f7cdf94831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 12/40] fix: Don't interpret percent signs in error texts and
 after %%

vlog() handed the text of the current error to vsnprintf(3) as (part of) the
format, and converted %% to a % which was then interpreted as well.
---
 src/common/log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index c6b191e..3864b76 100644
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -80,7 +80,8 @@ vlog(int level, const char *in_fmt, va_list ap)
 	} state = STATE_NORMAL;
 
 	/*
-	 * This loop handles `%m'.
+	 * This loop handles `%m'.  The percent signs of `%%' and of the error
+	 * text must not be interpreted by vsnprintf(3).
 	 *
 	 * Why do we check for "out_pos < sizeof(out_fmt) - 2"?  We need one
 	 * extra character when dealing with input such as `%s' (as we write
@@ -92,6 +93,7 @@ vlog(int level, const char *in_fmt, va_list ap)
 		switch (in_fmt[in_pos]) {
 		case '%':
 			if (state == STATE_PERCENT) {
+				out_fmt[out_pos++] = '%';
 				out_fmt[out_pos++] = '%';
 				state = STATE_NORMAL;
 			} else
@@ -103,8 +105,11 @@ vlog(int level, const char *in_fmt, va_list ap)
 				size_t err_pos;
 
 				for (err_pos = 0; err_str[err_pos] != '\0'
-				    && out_pos < sizeof(out_fmt) - 1; err_pos++)
+				    && out_pos < sizeof(out_fmt) - 2; err_pos++) {
+					if (err_str[err_pos] == '%')
+						out_fmt[out_pos++] = '%';
 					out_fmt[out_pos++] = err_str[err_pos];
+				}
 				state = STATE_NORMAL;
 				break;
 			}
-- 
2.43.0


From 0b57bfdea13dc70cf3cf850bd837235dce5e4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 13/40] fix: Pass unsigned characters to tolower() in
 strcasecmp replacements

---
 lib/strcasecmp.c  | 3 ++-
 lib/strncasecmp.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/strcasecmp.c b/lib/strcasecmp.c
index c630013..f82bbf2 100644
--- a/lib/strcasecmp.c
+++ b/lib/strcasecmp.c
@@ -39,7 +39,8 @@ strcasecmp(const char *s1, const char *s2)
 	size_t i = 0;
 	int c1, c2;
 
-	while ((c1 = tolower(s1[i])) == (c2 = tolower(s2[i]))) {
+	while ((c1 = tolower((unsigned char)s1[i]))
+	    == (c2 = tolower((unsigned char)s2[i]))) {
 		if (s1[i] == '\0')
 			return 0;
 		i++;
diff --git a/lib/strncasecmp.c b/lib/strncasecmp.c
index 6e560c4..0d8dd70 100644
--- a/lib/strncasecmp.c
+++ b/lib/strncasecmp.c
@@ -40,8 +40,8 @@ strncasecmp(const char *s1, const char *s2, size_t n)
 	size_t i;
 
 	for (i = 0; i < n; i++) {
-		int c1 = tolower(s1[i]);
-		int c2 = tolower(s2[i]);
+		int c1 = tolower((unsigned char)s1[i]);
+		int c2 = tolower((unsigned char)s2[i]);
 
 		if (c1 != c2)
 			return c1 - c2;
-- 
2.43.0


From d9099f273a7bdd67037ea14f78084cad32676eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 14/40] fix: Don't truncate the startup delay, ignore negative
 ones

---
 src/client/send_nsca.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..f119f6e 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -72,7 +72,7 @@ int exit_code = EXIT_SUCCESS;
 static options *get_options(int, char **);
 static void free_options(options *);
 static int parse_backslash_escape(const char *);
-static void delay_execution(unsigned int);
+static void delay_execution(unsigned long);
 static unsigned long random_number(unsigned long);
 static void forget_config(void);
 static void usage(int) __attribute__((__noreturn__));
@@ -110,8 +110,8 @@ main(int argc, char **argv)
 
 	debug("%s starting up", nsca_version());
 
-	if (conf_getint(cfg, "delay") != 0)
-		delay_execution((unsigned int)conf_getint(cfg, "delay"));
+	if (conf_getint(cfg, "delay") > 0)
+		delay_execution((unsigned long)conf_getint(cfg, "delay"));
 
 	xasprintf(&host_port, "%s:%s", conf_getstr(cfg, "server"),
 	    conf_getstr(cfg, "port"));
@@ -311,7 +311,7 @@ parse_backslash_escape(const char *sequence)
 }
 
 static void
-delay_execution(unsigned int max_delay)
+delay_execution(unsigned long max_delay)
 {
 #if HAVE_NANOSLEEP
 	struct timespec delay;
-- 
2.43.0


From d7b51a77bb007faf09ada831feafc66950905f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 15/40] fix: Don't split check results within escape sequences

---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..a67a31a 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (input[pos] == '\\') /* Skip the escape sequence. */
+			pos++;
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From 266ebb23ba2365b2ce1e9d4d008d0c1f1d2a5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 16/40] fix: Don't misread unterminated or continued last lines

---
 src/client/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..86d8601 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -302,9 +302,10 @@ read_conf_line(FILE *f)
 			line = xrealloc(line, size *= 2);
 		else {
 			line_number++;
-			if (pos >= 2) {
+			if (pos >= 2 && line[pos - 1] == '\n') {
 				if (line[pos - 2] == '\\') {
 					pos -= 2;
+					line[pos] = '\0';
 					continue;
 				}
 				if (line[pos - 2] == '\r') {
-- 
2.43.0


From f2cccb959de10f502ef209ce894a3888a3ac5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 17/40] fix: Accept comments which immediately follow a value

---
 src/client/conf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 86d8601..2b002fb 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -241,8 +241,10 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 				escape = false;
 				continue;
 			}
+			if (quote_sign == 0 && *in == '#')
+				break;
 			if (*in == quote_sign || (quote_sign == 0 &&
-			    (*in == '#' || *in == ' ' || *in == '\t')))
+			    (*in == ' ' || *in == '\t')))
 				done = true;
 			else if (*in == '\\')
 				escape = true;
-- 
2.43.0


From 3bbebcdf77ebd80bd862f437f7bcfefa486760d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 18/40] fix: Refuse to assign empty values to integer settings

---
 src/client/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 2b002fb..3b31afc 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -275,7 +275,7 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			char *end;
 			long num = strtol(value, &end, 0);
 
-			if (*end != '\0')
+			if (end == value || *end != '\0')
 				die("%s:%lu: Nonnumeric value assigned to `%s'",
 				    path, line_number, c->key);
 
-- 
2.43.0


From 98917d41bbf62460368afd8e1cae112ca5f965c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 19/40] fix: Perl/Python clients: Stay within the server's
 response

A response consisting of a newline made the clients look at the byte before
their buffer, and one without text, such as FAIL, let them report whatever
was left behind in it.  An unknown response was answered with the first eight
bytes of the BAIL message only, and without a newline.
---
 perl/client.c   | 15 +++++++++------
 python/client.c | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..708c7b5 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -206,7 +206,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -238,7 +238,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,19 +247,21 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char *msg = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, strlen(msg), 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
diff --git a/python/client.c b/python/client.c
index 12747b9..b1341df 100644
--- a/python/client.c
+++ b/python/client.c
@@ -244,7 +244,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -276,7 +276,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,19 +285,21 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char *msg = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, strlen(msg), 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
-- 
2.43.0


From caa2e4c3b462b4b1d1d935d71218644675a46298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 20/40] fix: Perl/Python clients: Wait for the socket with
 poll(2)

FD_SET() wrote beyond the set for descriptors above FD_SETSIZE, and select()
was never told about any descriptor above 0, so that it slept for 100 ms once
and then, as its timeout was used up, made the clients poll in a busy loop.
---
 perl/client.c   | 41 ++++++++++++++++-------------------------
 python/client.c | 41 ++++++++++++++++-------------------------
 2 files changed, 32 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 708c7b5..a2ccebf 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait for the direction OpenSSL asked for, but no longer than 100 ms. */
+static void
+wait_for_io(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +184,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c);
 	}
 }
 
@@ -187,14 +193,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -228,9 +229,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_io(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -273,19 +272,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index b1341df..a110a5b 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait for the direction OpenSSL asked for, but no longer than 100 ms. */
+static void
+wait_for_io(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +222,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c);
 	}
 }
 
@@ -225,14 +231,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -266,9 +267,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_io(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -311,19 +310,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From e3bb9ccf4a590a37acbe680b368f7aa4ab30a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 21/40] fix: Perl client: Leave space for the newline after a
 long command

The null byte following the appended newline was written beyond the buffer.
---
 perl/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index a2ccebf..b1d7398 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -352,8 +352,8 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
          break;
       case 1 :
          // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
+         strncpy(command_buf, command, sizeof(command_buf)-2);
+         command_buf[sizeof(command_buf)-2] = '\0';
          break;
       default :
          // Malformed timestamp
-- 
2.43.0


From 11be6fe1a0ae7fb07588ff113955256fee32cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 22/40] fix: Perl client: Reset errno before checking for
 strtol(3) errors

An earlier error made the client refuse commands with a valid timestamp.
---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index b1d7398..8aad7b4 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <poll.h>
 #include <string.h>
 #include <time.h>
@@ -331,6 +332,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From b27f8df8b94f3adc6e993978976328ca9967a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 23/40] fix: Python client: Use the actual length of a command
 that was cut

snprintf(3) returns the length the result would have had, so that a newline
was written, and memory sent to the server, beyond the command buffer.
---
 python/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/client.c b/python/client.c
index a110a5b..ae791a4 100644
--- a/python/client.c
+++ b/python/client.c
@@ -378,6 +378,8 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
 
+	if (len > (int)sizeof(command) - 2)
+		len = sizeof(command) - 2; /* The text was cut. */
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
-- 
2.43.0


From 0579a6b0e5a9f28e41c1202d11dd8c1f1da1443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 24/40] fix: Python client: Don't reuse a connection after an
 error

If the second attempt to submit a result timed out, its late response was
taken for the response to the next result.
---
 python/nscang.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..f4cd26d 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -74,6 +74,8 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	/* A late response must not be mistaken for that to another command. */
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
@@ -108,6 +110,8 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	/* A late response must not be mistaken for that to another command. */
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
-- 
2.43.0


From 49671a69de60a709e5510263f01bf28b486d2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 25/40] fix: Perl/Python clients: Release objects whose setup
 failed

If setting up a client failed after its TLS object was created, releasing it
crashed, or destroyed the table of all the other clients.  If creating the
TLS object failed, the BIO was leaked.
---
 perl/client.c   | 10 +++++++++-
 python/client.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 8aad7b4..02ffe7f 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -128,12 +128,20 @@ nscang_client_free(nscang_client_t *c)
 		nscang_client_disconnect(c);
 
 	if (c->ssl != NULL) {
-      HASH_DEL(nscang_client_instances, c);
+		nscang_client_t *found = NULL;
+
+		/* An object whose initialisation failed was never added. */
+		HASH_FIND_PTR(nscang_client_instances, &c->ssl, found);
+		if (found == c)
+			HASH_DEL(nscang_client_instances, c);
 	}
 	if (c->ssl != NULL) {
 		SSL_free(c->ssl);
 		c->ssl = NULL;
 		c->bio = NULL;
+	} else if (c->bio != NULL) {
+		BIO_free(c->bio);
+		c->bio = NULL;
 	}
 	if (c->ssl_ctx != NULL) {
 		SSL_CTX_free(c->ssl_ctx);
diff --git a/python/client.c b/python/client.c
index ae791a4..ae7869c 100644
--- a/python/client.c
+++ b/python/client.c
@@ -163,7 +163,12 @@ nscang_client_free(nscang_client_t *c)
 				break;
 		}
 		if (rc == 0) {
-			HASH_DEL(nscang_client_instances, c);
+			nscang_client_t *found = NULL;
+
+			/* It was never added if its initialisation failed. */
+			HASH_FIND_PTR(nscang_client_instances, &c->ssl, found);
+			if (found == c)
+				HASH_DEL(nscang_client_instances, c);
 			pthread_rwlock_unlock(&nscang_client_instances_lock);
 		}
 	}
@@ -171,6 +176,9 @@ nscang_client_free(nscang_client_t *c)
 		SSL_free(c->ssl);
 		c->ssl = NULL;
 		c->bio = NULL;
+	} else if (c->bio != NULL) {
+		BIO_free(c->bio);
+		c->bio = NULL;
 	}
 	if (c->ssl_ctx != NULL) {
 		SSL_CTX_free(c->ssl_ctx);
-- 
2.43.0


From 2886dd8314d01f60cb7aad4ccb3d0feaa9fca3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 26/40] fix: Python client: Manage the memory of NSCAngNotifyer
 objects

The object kept a pointer to the host name argument, which could be gone when
the attribute was read; its connection was never released, and it crashed if
it was destroyed or used without having been initialised.
---
 python/nscang.c | 53 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index f4cd26d..1d79815 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -37,13 +37,22 @@ typedef struct {
 	PyObject_HEAD
 	char *host;
 	unsigned int port;
-	char *identity;
-	char *psk;
-	char *ciphers;
 	nscang_client_t *client;
 	/* Type-specific fields go here. */
 } NSCAngNotifyer;
 
+static void
+release(NSCAngNotifyer *self)
+{
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+		self->client = NULL;
+	}
+	free(self->host);
+	self->host = NULL;
+}
+
 static PyObject *
 nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 {
@@ -60,6 +69,11 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError, "not initialised");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -96,6 +110,11 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError, "not initialised");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -121,29 +140,33 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	char errstr[1024];
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
-
-	self->host = NULL;
-	self->port = 5668;
-	self->identity = NULL;
-	self->psk = NULL;
-	self->ciphers = NULL;
+	char *host = NULL;
+	unsigned int port = 5668;
+	char *identity = NULL;
+	char *psk = NULL;
+	char *ciphers = NULL;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
-	    &self->psk, &self->ciphers))
+	    &host, &port, &identity, &psk, &ciphers))
 		return -1;
 
+	release(self);
+	self->host = strdup(host); /* The argument won't stay around. */
+	self->port = port;
 	self->client = malloc(sizeof(nscang_client_t));
-	if (self->client == NULL) {
+	if (self->host == NULL || self->client == NULL) {
+		free(self->client);
+		self->client = NULL;
 		PyErr_Format(PyExc_MemoryError,
 		    "Can't allocate memory for NSCAng connection state");
 		return -1;
 	}
 
-	if (!nscang_client_init(self->client, self->host, self->port,
-		self->ciphers, self->identity, self->psk)) {
+	if (!nscang_client_init(self->client, host, port, ciphers, identity,
+		psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
 		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		release(self);
 		return -1;
 	}
 
@@ -153,7 +176,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	release(self);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 8eb854f12a924194f000f7f0ca5eaa838e08cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 27/40] fix: Perl client: Don't use the server's text as a
 format string

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 63097ccf94875e8d9c8fd0800fd0113e872ee275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 28/40] fix: Server: Include only regular files of a directory

A socket, FIFO, or device file named *.conf below a directory of
configuration files stopped the server, though only regular files are
to be included.
---
 src/server/conf.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..44b63a7 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -392,13 +392,12 @@ include_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt, int argc,
 }
 
 static int
-include_file_cb(const char *path,
-                const struct stat *sb __attribute__((__unused__)), int type,
+include_file_cb(const char *path, const struct stat *sb, int type,
                 struct FTW *info __attribute__((__unused__)))
 {
 	char *dot;
 
-	if (type != FTW_F) {
+	if (type != FTW_F || !S_ISREG(sb->st_mode)) {
 		debug("Not including %s, as it's not a regular file", path);
 		return 0;
 	}
-- 
2.43.0


From 6bf103a90623c32a8e1ee607bb9521b56674a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 29/40] fix: Server: Quote paths handed to include()

A quote or backslash in the name of a file below a directory of
configuration files was a syntax error, or named another file.
---
 src/server/conf.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 44b63a7..7c5a8b9 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -157,10 +157,19 @@ conf_parse(const char *path)
 static int
 parse_include(cfg_t * restrict cfg, const char * restrict path)
 {
-	char *include_statement;
+	char *include_statement, *quoted_path, *p;
 	int status;
 
-	xasprintf(&include_statement, "include('%s')", path);
+	p = quoted_path = xmalloc(2 * strlen(path) + 1);
+	for (; *path != '\0'; path++) {
+		if (*path == '\'' || *path == '\\')
+			*p++ = '\\';
+		*p++ = *path;
+	}
+	*p = '\0';
+
+	xasprintf(&include_statement, "include('%s')", quoted_path);
+	free(quoted_path);
 	status = cfg_parse_buf(cfg, include_statement);
 	free(include_statement);
 	return status;
-- 
2.43.0


From d897be7f39b493f1bfa3e2b6e6dc86ddbb12dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 30/40] fix: Server: Don't clean up twice if the restart fails

When execvp(3) failed on restarting, the PID file and the configuration
were released a second time while exiting.
---
 src/server/nsca-ng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..44d98e2 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,10 +372,10 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
+	if (pid_file != NULL && pidfile_remove(pfh) == -1)
 		error("Cannot remove %s: %m", pid_file);
-		pid_file = NULL; /* Don't retry removing the PID file. */
-	}
+
+	pid_file = NULL; /* Don't try removing the PID file again. */
 }
 
 static void
@@ -394,6 +394,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL;
 	}
 }
 
-- 
2.43.0


From 32377d8aefd464ffcac16d3b5fbfdd9e75fa89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 31/40] fix: Server: Wipe the global password as well

Only the passwords of authorize sections were overwritten on exit.
---
 src/server/nsca-ng.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 44d98e2..0c43c88 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -86,6 +86,7 @@ static void close_descriptors(void);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
 static void forget_config(void);
+static void forget_password(cfg_t *);
 static void stop_keep_alive(void);
 static void notify_systemd(void);
 static void keep_alive_cb(EV_P_ ev_timer *, int);
@@ -384,20 +385,24 @@ forget_config(void)
 	if (cfg != NULL) {
 		unsigned int i, n_auth_blocks = cfg_size(cfg, "authorize");
 
-		for (i = 0; i < n_auth_blocks; i++) {
-			cfg_t *auth = cfg_getnsec(cfg, "authorize", i);
-
-			if (cfg_size(auth, "password") > 0) {
-				char *password = cfg_getstr(auth, "password");
-
-				(void)memset(password, 0, strlen(password));
-			}
-		}
+		forget_password(cfg);
+		for (i = 0; i < n_auth_blocks; i++)
+			forget_password(cfg_getnsec(cfg, "authorize", i));
 		cfg_free(cfg);
 		cfg = NULL;
 	}
 }
 
+static void
+forget_password(cfg_t *section)
+{
+	if (cfg_size(section, "password") > 0) {
+		char *password = cfg_getstr(section, "password");
+
+		(void)memset(password, 0, strlen(password));
+	}
+}
+
 static void
 stop_keep_alive(void)
 {
-- 
2.43.0


From 056df82442b2bc1d72d2171c0e8d47349ce3670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 32/40] fix: Server: Allow for -S when socket activated

According to the man page, the server behaves as if -F was specified if
it is socket activated, but -S was refused without -F nonetheless.
---
 src/server/nsca-ng.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 0c43c88..7ec73ee 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -136,7 +136,8 @@ main(int argc, char **argv)
 			opt->log_target = LOG_TARGET_STDERR;
 		else
 			opt->log_target = LOG_TARGET_SYSLOG;
-	} else if (!opt->foreground && opt->log_target & LOG_TARGET_STDERR)
+	} else if (!opt->foreground && !socket_activated
+	    && opt->log_target & LOG_TARGET_STDERR)
 		die("The `-S' option may not be specified without `-F'");
 
 	if (opt->log_level != -1)
-- 
2.43.0


From 2d0c2652b43a2993629bbc6a02c22050c3904f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 33/40] fix: Server: Accept lists of patterns as global
 settings

The man page says authorization settings may also be specified globally,
but a list of patterns was a syntax error there.
---
 src/server/conf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 7c5a8b9..d4b6f07 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -90,10 +90,10 @@ conf_parse(const char *path)
 
 	/*
 	 * To let the user specify a global default value for an "authorize"
-	 * setting, also add the setting as a CFG_STR to the list of global
-	 * options, and add the setting's name to the "settings" array in the
-	 * fallback_to_defaults() function.  This should be done for all
-	 * authorization settings.
+	 * setting, also add the setting as a CFG_STR (or CFG_STR_LIST) to the
+	 * list of global options, and add the setting's name to the "settings"
+	 * array in the fallback_to_defaults() function.  This should be done
+	 * for all authorization settings.
 	 */
 	cfg_opt_t auth_opts[] = {
 		CFG_STR("password", NULL, CFGF_NODEFAULT),
@@ -109,15 +109,15 @@ conf_parse(const char *path)
 		CFG_FUNC("include", include_cb),
 		CFG_STR("chroot", NULL, CFGF_NODEFAULT),
 		CFG_STR("command_file", DEFAULT_COMMAND_FILE, CFGF_NONE),
-		CFG_STR("commands", NULL, CFGF_NODEFAULT),
-		CFG_STR("hosts", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("commands", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("hosts", NULL, CFGF_NODEFAULT),
 		CFG_STR("listen", DEFAULT_LISTEN, CFGF_NONE),
 		CFG_INT("log_level", DEFAULT_LOG_LEVEL, CFGF_NONE),
 		CFG_INT("max_command_size", DEFAULT_MAX_COMMAND_SIZE, CFGF_NONE),
 		CFG_INT("max_queue_size", DEFAULT_MAX_QUEUE_SIZE, CFGF_NONE),
 		CFG_STR("password", NULL, CFGF_NODEFAULT),
 		CFG_STR("pid_file", NULL, CFGF_NODEFAULT),
-		CFG_STR("services", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("services", NULL, CFGF_NODEFAULT),
 		CFG_STR("temp_directory", DEFAULT_TEMP_DIRECTORY, CFGF_NONE),
 		CFG_STR("tls_ciphers", DEFAULT_TLS_CIPHERS, CFGF_NONE),
 		CFG_FLOAT("timeout", DEFAULT_TIMEOUT, CFGF_NONE),
-- 
2.43.0


From 33ca106e0acc4bf4401e5743e50d7cf82645d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 34/40] fix: xprintf: Don't negate the smallest integer

---
 lib/xprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/xprintf.c b/lib/xprintf.c
index fc680f7..eb1ffa9 100644
--- a/lib/xprintf.c
+++ b/lib/xprintf.c
@@ -727,7 +727,7 @@ fmtint(char *str, size_t *len, size_t size, INTMAX_T value, int base, int width,
 	if (flags & PRINT_F_UNSIGNED)
 		uvalue = value;
 	else {
-		uvalue = (value >= 0) ? value : -value;
+		uvalue = (value >= 0) ? value : -(UINTMAX_T)value;
 		if (value < 0)
 			sign = '-';
 		else if (flags & PRINT_F_PLUS)	/* Do a sign. */
-- 
2.43.0


From a2701007887c9dd1aca91040106ac39ccb28d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 35/40] fix: xprintf: Print nothing for zero with a precision
 of zero

---
 lib/xprintf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/xprintf.c b/lib/xprintf.c
index eb1ffa9..8ca675a 100644
--- a/lib/xprintf.c
+++ b/lib/xprintf.c
@@ -736,8 +736,16 @@ fmtint(char *str, size_t *len, size_t size, INTMAX_T value, int base, int width,
 			sign = ' ';
 	}
 
-	pos = convert(uvalue, iconvert, sizeof(iconvert), base,
-	    flags & PRINT_F_UP);
+	/*
+	 * C99 says: "The result of converting a zero value with a precision of
+	 * zero is no characters." (7.19.6.1, 8)
+	 */
+	if (uvalue == 0 && precision == 0 &&
+	    !(base == 8 && flags & PRINT_F_NUM))
+		pos = 0;
+	else
+		pos = convert(uvalue, iconvert, sizeof(iconvert), base,
+		    flags & PRINT_F_UP);
 
 	if (flags & PRINT_F_NUM && uvalue != 0) {
 		/*
-- 
2.43.0


From bd55df56aafc4a8aa9468d692f56ccef93103eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 36/40] fix: xprintf: Pad characters to the field width

---
 lib/xprintf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/xprintf.c b/lib/xprintf.c
index 8ca675a..39e8dd8 100644
--- a/lib/xprintf.c
+++ b/lib/xprintf.c
@@ -574,7 +574,15 @@ rpl_vsnprintf(char *str, size_t size, const char *format, va_list args)
 				break;
 			case 'c':
 				cvalue = va_arg(args, int);
+				while (!(flags & PRINT_F_MINUS) && width > 1) {
+					OUTCHAR(str, len, size, ' ');
+					width--;
+				}
 				OUTCHAR(str, len, size, cvalue);
+				while (width > 1) {
+					OUTCHAR(str, len, size, ' ');
+					width--;
+				}
 				break;
 			case 's':
 				strvalue = va_arg(args, char *);
-- 
2.43.0


From 1d40bfbeca02fdcaf9219eb548fb9e7f7efc430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 37/40] fix: xprintf: Don't read strings past their precision

---
 lib/xprintf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/xprintf.c b/lib/xprintf.c
index 39e8dd8..31741fc 100644
--- a/lib/xprintf.c
+++ b/lib/xprintf.c
@@ -695,8 +695,8 @@ fmtstr(char *str, size_t *len, size_t size, const char *value, int width,
 		value = "(null)";
 
 	/* If a precision was specified, don't read the string past it. */
-	for (strln = 0; value[strln] != '\0' &&
-	    (noprecision || strln < precision); strln++)
+	for (strln = 0; (noprecision || strln < precision) &&
+	    value[strln] != '\0'; strln++)
 		continue;
 
 	if ((padlen = width - strln) < 0)
@@ -708,7 +708,7 @@ fmtstr(char *str, size_t *len, size_t size, const char *value, int width,
 		OUTCHAR(str, *len, size, ' ');
 		padlen--;
 	}
-	while (*value != '\0' && (noprecision || precision-- > 0)) {
+	while ((noprecision || precision-- > 0) && *value != '\0') {
 		OUTCHAR(str, *len, size, *value);
 		value++;
 	}
-- 
2.43.0


From 2672b2e3de016ee5bd543c5c4b8245e166b5ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 38/40] fix: Client: Don't let the compiler optimize away
 wiping the password

---
 src/client/conf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 3b31afc..5872228 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -33,6 +33,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include <openssl/crypto.h>
 
 #include "conf.h"
 #include "log.h"
@@ -283,8 +284,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		}
 
 		/* Forget this copy of the value, in case it's sensitive. */
-		(void)memset(value, 0, strlen(value));
-		(void)memset(line, 0, strlen(line));
+		OPENSSL_cleanse(value, strlen(value));
+		OPENSSL_cleanse(line, strlen(line));
 		free(line);
 	}
 
-- 
2.43.0


From 5bc666ccec2bfc2f8a5de8a860f8d59b2e3b7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 39/40] fix: Don't release a setting twice when out of memory

---
 src/client/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 5872228..614de52 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -134,11 +134,12 @@ conf_setstr(conf * restrict cfg, const char * restrict key,
             const char * restrict value)
 {
 	conf *c = lookup_conf(cfg, key);
+	char *new = xstrdup(value);
 
 	if (c->value.s != NULL)
 		free(c->value.s);
 
-	c->value.s = xstrdup(value);
+	c->value.s = new;
 }
 
 void
-- 
2.43.0


From fcb57ad699311123a4a28f9283266b77ca1f885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:46 +0000
Subject: [PATCH 40/40] fix: Make new connections of the Perl and Python
 clients with the key again

SSL_clear() keeps the session, so that with TLS 1.3 the second connection
of an object offered a ticket instead of the identity.  A server with an
authorize "*" section takes the ticket for an identity and looks up the
wrong key: the reconnection after a time-out always failed.
---
 perl/client.c   | 1 +
 python/client.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 02ffe7f..5d76694 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -290,6 +290,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* A ticket isn't our identity. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index ae7869c..ac41bd6 100644
--- a/python/client.c
+++ b/python/client.c
@@ -327,6 +327,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* A ticket isn't our identity. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0

