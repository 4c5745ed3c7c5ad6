From 5bae8e3f1010c346e7dc359115aa5ceda5534de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 01/29] fix: keep reading requests after answering NOOP

After answering a NOOP request, the server neither issued another read
request nor closed the connection, so any further requests of the client
were ignored until the connection timed out.
---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..6de587e 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From 925bf8a53695c2fdc618e5c11a40dd6366a8cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/29] fix: refuse pushed data with embedded NUL bytes

is_authorized() only looks at the data up to the first NUL byte, while
all of the announced data is queued for the command file.  A client
could therefore append arbitrary (unauthorized) commands behind an
authorized command line followed by a NUL byte.
---
 src/server/server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 6de587e..8105d75 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -234,7 +234,12 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	/*
+	 * The authorization patterns are matched against a string, so data with
+	 * embedded NUL bytes would only be checked up to the first one.
+	 */
+	if (memchr(data, '\0', connection->input_length) == NULL
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From 6f450ad3dac9bf8151ded58127ec9765505af305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 03/29] fix: don't let large PUSH sizes wrap around

atoi(3) silently truncates values which don't fit into an int, so (e.g.)
an announcement of 4294967297 bytes was accepted as 1 byte.
---
 src/server/server.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 8105d75..6d64ff8 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,7 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -190,7 +191,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 {
 	connection_state *connection = tls->data;
 	char *args[2];
-	int data_size;
+	long data_size;
 
 	info("%s C: %s", tls->peer, line);
 
@@ -202,12 +203,13 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = strtol(args[1], NULL, 10)) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
-		} else if (connection->ctx->max_command_size > 0
-		    && (size_t)data_size > connection->ctx->max_command_size) {
+		} else if (data_size > INT_MAX
+		    || (connection->ctx->max_command_size > 0
+		    && (size_t)data_size > connection->ctx->max_command_size)) {
 			warning("Command from %s too long", tls->peer);
 			send_response(tls, "FAIL PUSH data size too large");
 			tls_read_line(tls, handle_connection);
-- 
2.43.0


From ac7d152604eab2964d7f36ee65435b98bd27f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 04/29] fix: don't split check results within escape sequences

With `-d n', the `n' of an escaped newline was taken for a delimiter.
---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..818d7aa 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (input[pos] == '\\') /* Skip the escaped character. */
+			pos++;
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From ec10d9cef9ff9b2a8873eb8e583b2421defd6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 05/29] fix: don't skip pushed data received along with the
 request

---
 src/common/tls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..21f0e10 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -839,7 +839,11 @@ read_bytes(tls_state *tls)
 	do {
 		n_todo = (int)(tls->input_size - tls->input_offset);
 
-		if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
+		/* Use up any data read_line() has received ahead of time. */
+		if ((n = buffer_size(tls->input_buffer) > 0
+		    ? (int)buffer_read(tls->input_buffer,
+		    tls->input + tls->input_offset, (size_t)n_todo)
+		    : SSL_read(tls->ssl, tls->input + tls->input_offset,
 		    n_todo)) <= 0) {
 			debug("Received 0 of %d bytes from %s", n_todo,
 			    tls->peer);
-- 
2.43.0


From 1c9726d66b82c12401f525cf5ff105683c24cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 06/29] fix: close the socket if a connection cannot be set up

---
 src/common/tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index 21f0e10..39226a1 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -536,6 +536,8 @@ tls_free(tls_state *tls)
 		free(tls->peer);
 	if (tls->ssl != NULL)
 		SSL_free(tls->ssl);
+	else if (tls->bio != NULL)
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From e2b7b4d9af6c07ae5c0697dc275aedb15f12a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 07/29] fix: release the client identity if the handshake fails

---
 src/common/tls.c  | 6 ++++--
 src/server/auth.c | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 39226a1..acbd56a 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -534,9 +534,10 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		free(SSL_get_app_data(tls->ssl)); /* If the handshake failed. */
 		SSL_free(tls->ssl);
-	else if (tls->bio != NULL)
+	} else if (tls->bio != NULL)
 		BIO_free_all(tls->bio);
 
 	free(tls);
@@ -640,6 +641,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL);
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..5f1aaaa 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -68,6 +69,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
+	free(SSL_get_app_data(ssl)); /* The peer might try multiple IDs. */
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From e0ab8990079eff94b8165ce10dce6125697ace77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 08/29] fix: don't log a NULL pointer during the TLS handshake

---
 src/common/tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index acbd56a..35e5689 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -747,7 +747,7 @@ timeout_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
 
 	if (diff > 0.0) {
 		debug("Resetting timeout watcher for %s, %.2f seconds left",
-		    tls->peer, (double)diff);
+		    tls->peer != NULL ? tls->peer : tls->addr, (double)diff);
 
 		ev_timer_set(w, diff, 0.0);
 		ev_timer_start(EV_A_ w);
-- 
2.43.0


From 17bdf6c75684fbded4cc2d95d5e216ca63126dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 09/29] fix: release the dump file and command if a dump fails

---
 src/server/fifo.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..da80d62 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,19 +402,23 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
 		if (close_dump_file(fifo))
 			fifo_write(fifo, command, strlen(command), free);
+		else
+			free(command);
 	}
 
 	if (buffers_exceed_pipe_size(fifo))
@@ -477,6 +481,8 @@ sync_dump_data(fifo_state *fifo)
 	command = make_process_file_command(fifo);
 	if (close_dump_file(fifo))
 		fifo_write(fifo, command, strlen(command), free);
+	else
+		free(command);
 }
 
 #endif
-- 
2.43.0


From 40d623cfd9b2d9e716057c4f649aad29a23fde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 10/29] fix: don't free a pending dump request when stopping
 the server

---
 src/server/fifo.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index da80d62..c5e712e 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -201,8 +201,17 @@ fifo_stop(fifo_state *fifo)
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
+	if (ev_is_active(&fifo->async_watcher)) {
+		const struct aiocb *request = &fifo->async_cb;
+
+		/* The pending request refers to the memory we free below. */
+		while (aio_error(request) == EINPROGRESS)
+			(void)aio_suspend(&request, 1, NULL);
+		(void)signal(SIG_AIO, SIG_IGN);
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+		fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
+		(void)close_dump_file(fifo);
+	}
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
-- 
2.43.0


From 14f690fa3e25de4893bbea3fc2a2e9c6140360cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 11/29] fix: don't accept binary numbers as delimiters

C23's strtol(3) accepts binary numbers if called with base 0, so -d and -e took "\b1" and "0b1" for a single character.
---
 src/client/send_nsca.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..d71893a 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -295,11 +295,13 @@ parse_backslash_escape(const char *sequence)
 		if (sequence[0] == '0' || sequence[0] == '\\') {
 			char *end;
 			long value;
+			int base = tolower((unsigned char)sequence[1]) == 'x'
+			    ? 16 : 8; /* C23 strtol(3) would accept "0b1". */
 
 			(void)strcpy(numeric, sequence);
 			if (numeric[0] == '\\') /* \x42 -> 0x42 */
 				numeric[0] = '0';
-			value = strtol(numeric, &end, 0);
+			value = strtol(numeric, &end, base);
 			if (*end == '\0' && value >= 0 && value <= CHAR_MAX)
 				return (unsigned char)value;
 			/* FALLTHROUGH */
-- 
2.43.0


From abcab31df54bebce7faa50ddf677a293b677d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 12/29] fix: announce the size of the command with the proper
 conversion

The command length is a size_t, %u announced only its low 32 bits.
---
 src/client/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/client.c b/src/client/client.c
index 2e8e3e2..e981fae 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -143,7 +143,7 @@ handle_input_chunk(input_state * restrict input, char * restrict chunk)
 	client->command_length = strlen(client->command);
 	client->command[client->command_length++] = '\n';
 
-	xasprintf(&request, "PUSH %u", client->command_length);
+	xasprintf(&request, "PUSH %zu", client->command_length);
 	info("%s C: %s", client->tls->peer, request);
 	tls_write_line(client->tls, request);
 	free(request);
-- 
2.43.0


From 875323e51f40eb03bdf0eea4276db5529dfa32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 13/29] fix: don't log a NULL pointer if a TLS error has no
 reason text

ERR_reason_error_string(3) returns NULL for system errors, e.g. if the connection was refused.
---
 src/common/tls.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 35e5689..d954e98 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -982,9 +982,12 @@ log_tls_message(void log(const char *, ...), const char *format, ...)
 	xvasprintf(&message, format, ap);
 	va_end(ap);
 
-	if ((e = ERR_get_error()) != 0)
-		log("%s: %s", message, ERR_reason_error_string(e));
-	else
+	if ((e = ERR_get_error()) != 0) {
+		const char *reason = ERR_reason_error_string(e);
+
+		log("%s: %s", message,
+		    reason != NULL ? reason : "Unknown reason");
+	} else
 		log("%s", message);
 
 	free(message);
-- 
2.43.0


From ca585d223e07947e416bfe34e637ef09fedc268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 14/29] fix: handle a configuration file ending in a continued
 or unterminated line

If the last line wasn't terminated by a newline, read_conf_line() looked at
the wrong character when checking for a trailing backslash or carriage
return.  And if there was no line to join after a trailing backslash, the
returned string wasn't properly terminated, so the caller read beyond it.
---
 src/client/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..86d8601 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -302,9 +302,10 @@ read_conf_line(FILE *f)
 			line = xrealloc(line, size *= 2);
 		else {
 			line_number++;
-			if (pos >= 2) {
+			if (pos >= 2 && line[pos - 1] == '\n') {
 				if (line[pos - 2] == '\\') {
 					pos -= 2;
+					line[pos] = '\0';
 					continue;
 				}
 				if (line[pos - 2] == '\r') {
-- 
2.43.0


From 41e77675239271de27448086dac069eb569ac9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 15/29] fix: reject out-of-range numbers in the client's
 configuration file

A delay which is a multiple of 2^32 made the client crash (division by zero),
and negative delays or timeouts, which are rejected on the command line, were
silently accepted.
---
 src/client/conf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/conf.c b/src/client/conf.c
index 86d8601..6dba6cd 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -29,6 +29,7 @@
 # include <config.h>
 #endif
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -276,6 +277,9 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			if (*end != '\0')
 				die("%s:%lu: Nonnumeric value assigned to `%s'",
 				    path, line_number, c->key);
+			if (num < 0 || num > INT_MAX)
+				die("%s:%lu: Value of `%s' is out of range",
+				    path, line_number, c->key);
 
 			conf_setint(cfg, c->key, num);
 		}
-- 
2.43.0


From 270d7ab18310ae90381a6b7613baa2c165757767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 16/29] fix: group authorization patterns before anchoring or
 embedding them

A pattern with alternatives (`foo|bar') was neither anchored nor confined
to the host or service field, as the alternation operator applied to the
complete expression built from the pattern.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From a36019cdc035e841f31e19c2825220b09a18f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 17/29] fix: don't clean up twice if restarting the server
 fails

If execvp(3) fails, the functions registered with atexit(3) are called
after they were called for restarting: the PID file handle and the
configuration had been released by then.
---
 src/server/nsca-ng.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..7b7054f 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,8 +372,9 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
-		error("Cannot remove %s: %m", pid_file);
+	if (pid_file != NULL) {
+		if (pidfile_remove(pfh) == -1)
+			error("Cannot remove %s: %m", pid_file);
 		pid_file = NULL; /* Don't retry removing the PID file. */
 	}
 }
@@ -394,6 +395,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL; /* Don't release the configuration twice. */
 	}
 }
 
-- 
2.43.0


From 2c5df2da1329dc4d6fb185e5f47ca676ea77b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 18/29] fix: also wipe the globally configured password

---
 src/server/nsca-ng.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 7b7054f..9a83c47 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -394,6 +394,11 @@ forget_config(void)
 				(void)memset(password, 0, strlen(password));
 			}
 		}
+		if (cfg_size(cfg, "password") > 0) {
+			char *password = cfg_getstr(cfg, "password");
+
+			(void)memset(password, 0, strlen(password));
+		}
 		cfg_free(cfg);
 		cfg = NULL; /* Don't release the configuration twice. */
 	}
-- 
2.43.0


From 1542a3bd88c4f77c5361e77c5b6a59d379c92d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 19/29] fix: keep literal percent signs in log messages literal

vlog() turned `%%' into a single percent sign and copied the description
of the error code as is into the format string handed to vsnprintf(3).
---
 src/common/log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/log.c b/src/common/log.c
index c6b191e..53a83ee 100644
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -92,6 +92,7 @@ vlog(int level, const char *in_fmt, va_list ap)
 		switch (in_fmt[in_pos]) {
 		case '%':
 			if (state == STATE_PERCENT) {
+				out_fmt[out_pos++] = '%';
 				out_fmt[out_pos++] = '%';
 				state = STATE_NORMAL;
 			} else
@@ -103,8 +104,11 @@ vlog(int level, const char *in_fmt, va_list ap)
 				size_t err_pos;
 
 				for (err_pos = 0; err_str[err_pos] != '\0'
-				    && out_pos < sizeof(out_fmt) - 1; err_pos++)
+				    && out_pos < sizeof(out_fmt) - 2; err_pos++) {
+					if (err_str[err_pos] == '%')
+						out_fmt[out_pos++] = '%';
 					out_fmt[out_pos++] = err_str[err_pos];
+				}
 				state = STATE_NORMAL;
 				break;
 			}
-- 
2.43.0


From 4df0fe7ad0c6fbe83398332392db61ae0b235e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 20/29] fix: don't read beyond short or terse server responses
 (Perl, Python)

---
 perl/client.c   | 15 +++++++++------
 python/client.c | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..2f03d67 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -206,7 +206,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -238,7 +238,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,19 +247,21 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char msg[] = "BAIL Unknown response!\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, sizeof(msg) - 1, 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
diff --git a/python/client.c b/python/client.c
index 12747b9..e1b6136 100644
--- a/python/client.c
+++ b/python/client.c
@@ -244,7 +244,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -276,7 +276,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,19 +285,21 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf + (buf[4] == 0x00 ? 4 : 5),
+		    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char msg[] = "BAIL Unknown response!\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, sizeof(msg) - 1, 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
-- 
2.43.0


From dcae8adf961c6e3068ad5184470664202b03e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 21/29] fix: wait for the connection's socket, whatever its
 number (Perl, Python)

---
 perl/client.c   | 41 ++++++++++++++++-------------------------
 python/client.c | 41 ++++++++++++++++-------------------------
 2 files changed, 32 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 2f03d67..103164f 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +184,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -187,14 +193,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -228,9 +229,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -273,19 +272,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index e1b6136..ff30e73 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,23 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	pfd.revents = 0;
+
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +222,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -225,14 +231,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -266,9 +267,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -311,19 +310,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From 527834c68e6558699c7c186bb2752539a05671d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 22/29] fix: send commands of any length, never beyond the
 buffer (Perl, Python)

---
 perl/client.c   | 137 ++++++++++++++++++++++++++++--------------------
 python/client.c |  47 ++++++++++-------
 2 files changed, 107 insertions(+), 77 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 103164f..4377a33 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,7 +27,9 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <limits.h>
 #include <poll.h>
+#include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
@@ -340,85 +342,104 @@ has_timestamp_prefix(const char *s)
 int
 nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
 {
-   const int command_len = strlen(command);
-	char command_buf[1024];
-	char cmd[32];
-	int rc, len;
-
-   switch( has_timestamp_prefix(command) ) {
-      case 0 :
-         // There was no timestamp. Add one.
-         snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
-         break;
-      case 1 :
-         // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
-         break;
-      default :
-         // Malformed timestamp
-         c->_errno = NSCANG_ERROR_FAIL;
-         snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
-         return 0;
-   }
-
-   /* make sure command_buf is newline-terminated */
-   len = strlen(command_buf);
-   if(command_buf[len-1] != '\n') {
-      command_buf[len] = '\n';
-      len++;
-      command_buf[len] = '\0';
-   }
-
-	if (!nscang_client_send_moin(c, timeout))
-      return 0;
-
-   snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
-	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
-      return 0;
-
-	rc = nscang_client_response(c, timeout);
-
-	if (!rc)
-      return 0;
+	char cmd[32], *command_buf;
+	size_t size;
+	int len, rc;
 
-	if (rc != NSCANG_RESP_OKAY) {
-		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-      return 0;
+	/* Leave room for a time stamp and the newline. */
+	size = strlen(command) + 32;
+	if ((command_buf = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
 	}
 
-	if (!nscang_client_write(c, command_buf, len, timeout))
-      return 0;
+	switch (has_timestamp_prefix(command)) {
+	case 0:
+		/* There was no timestamp. Add one. */
+		len = snprintf(command_buf, size - 1, "[%u] %s",
+		    (unsigned int)time(NULL), command);
+		break;
+	case 1:
+		/* Timestamp found, just copy everything */
+		len = snprintf(command_buf, size - 1, "%s", command);
+		break;
+	default:
+		/* Malformed timestamp */
+		free(command_buf);
+		c->_errno = NSCANG_ERROR_FAIL;
+		snprintf(c->errstr, sizeof(c->errstr),
+		    "invalid time stamp format in command `%s'", command);
+		return 0;
+	}
+	if (len < 0 || len == INT_MAX) { /* It's too long. */
+		free(command_buf);
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
-	rc = nscang_client_response(c, timeout);
+	/* make sure command_buf is newline-terminated */
+	if (command_buf[len - 1] != '\n')
+		command_buf[len++] = '\n';
+
+	rc = nscang_client_send_moin(c, timeout);
+	if (rc) {
+		snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
+		rc = nscang_client_write(c, cmd, strlen(cmd), timeout);
+		if (rc)
+			rc = nscang_client_response(c, timeout);
+		if (rc == NSCANG_RESP_OKAY) {
+			rc = nscang_client_write(c, command_buf, len, timeout);
+			if (rc)
+				rc = nscang_client_response(c, timeout);
+		}
+	}
+	free(command_buf);
 
 	if (!rc)
-      return 0;
+		return 0;
 
 	if (rc != NSCANG_RESP_OKAY) {
 		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-      return 0;
+		return 0;
 	}
 
-   return 1;
+	return 1;
 }
 
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char command[1024];
+	char *command;
+	size_t size;
+	int len, rc;
+
+	size = strlen(host) + strlen(message) + 128;
+	if (service != NULL)
+		size += strlen(service);
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
 	if (service == NULL)
-      snprintf(command, sizeof(command) - 1,
-            "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
-            host, status, message);
+		len = snprintf(command, size,
+		    "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
+		    host, status, message);
 	else
-      snprintf(command, sizeof(command) - 1,
-            "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
-            host, service, status, message);
+		len = snprintf(command, size,
+		    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
+		    host, service, status, message);
+	if (len < 0) { /* It's too long. */
+		free(command);
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
+	rc = nscang_client_send_command(c, command, timeout);
+	free(command);
 
-   return nscang_client_send_command(c, command, timeout);
+	return rc;
 }
 
 int
diff --git a/python/client.c b/python/client.c
index ff30e73..af3d61c 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,7 +27,9 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <limits.h>
 #include <poll.h>
+#include <stdlib.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -363,41 +365,48 @@ int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char cmd[64], command[1024];
+	char cmd[64], *command;
+	size_t size;
 	int len, rc;
 
 	if (!nscang_client_send_moin(c, timeout))
 		return 0;
 
+	/* Leave room for the fixed parts, the numbers, and the newline. */
+	size = strlen(host) + strlen(message) + 128;
+	if (service != NULL)
+		size += strlen(service);
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
 	if (service == NULL)
-		len = snprintf(command, sizeof(command) - 1,
+		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
 		    (unsigned int)time(NULL), host, status, message);
 	else
-		len = snprintf(command, sizeof(command) - 1,
+		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
+	if (len < 0 || len == INT_MAX) { /* It's too long. */
+		free(command);
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
-	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
-		return 0;
-
-	rc = nscang_client_response(c, timeout);
-
-	if (!rc)
-		return 0;
-
-	if (rc != NSCANG_RESP_OKAY) {
-		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-		return 0;
+	rc = nscang_client_write(c, cmd, strlen(cmd), timeout);
+	if (rc)
+		rc = nscang_client_response(c, timeout);
+	if (rc == NSCANG_RESP_OKAY) {
+		rc = nscang_client_write(c, command, len, timeout);
+		if (rc)
+			rc = nscang_client_response(c, timeout);
 	}
-
-	if (!nscang_client_write(c, command, len, timeout))
-		return 0;
-
-	rc = nscang_client_response(c, timeout);
+	free(command);
 
 	if (!rc)
 		return 0;
-- 
2.43.0


From 724a0417b6787488727edcff7d3ca1b62d64e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 23/29] fix: don't reject time stamps because of an earlier
 error (Perl)

---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 4377a33..fa50477 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <limits.h>
 #include <poll.h>
 #include <stdlib.h>
@@ -333,6 +334,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From 81b63724e9c6330abe8d02e8a97b9be3c0fdbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 24/29] fix: describe TLS errors without a reason string (Perl,
 Python)

---
 perl/client.c   | 11 ++++-------
 python/client.c | 12 ++++++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index fa50477..9fc64e3 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -463,14 +463,11 @@ nscang_client_ssl_error(char *buf, int buf_size, const char *msg)
 {
 	const char *ssl_err;
 
-	strncpy(buf, msg, buf_size);
-	buf_size--;
-
 	ssl_err = ERR_reason_error_string(ERR_peek_error());
-	if (ssl_err != NULL) {
-		strncat(buf, ":", buf_size);
-		strncat(buf, ssl_err, buf_size);
-	}
+	if (ssl_err != NULL)
+		snprintf(buf, buf_size, "%s:%s", msg, ssl_err);
+	else
+		snprintf(buf, buf_size, "%s", msg);
 }
 
 char *
diff --git a/python/client.c b/python/client.c
index af3d61c..ad89d0f 100644
--- a/python/client.c
+++ b/python/client.c
@@ -433,6 +433,14 @@ nscang_client_send_quit(nscang_client_t *c)
 	return 1;
 }
 
+static const char *
+ssl_reason(unsigned long code)
+{
+	const char *reason = ERR_reason_error_string(code);
+
+	return reason != NULL ? reason : "unknown error";
+}
+
 char *
 nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 {
@@ -451,8 +459,8 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		break;
 	case NSCANG_ERROR_SSL:
 		snprintf(buf, buf_size, "SSL error - %s - %s",
-		    ERR_reason_error_string(ERR_peek_last_error()),
-		    ERR_reason_error_string(ERR_peek_error()));
+		    ssl_reason(ERR_peek_last_error()),
+		    ssl_reason(ERR_peek_error()));
 		break;
 	case NSCANG_ERROR_MALLOC:
 		strncpy(buf, "Can't allocate memory", buf_size);
-- 
2.43.0


From eab5fca376f067a87dea9b9ce5bd9752fcf2d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 25/29] fix: don't use the error description as a format string
 (Perl)

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 680c006ab707962ca9a57eeffc17bae7669d20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 26/29] fix: don't remove an unregistered connection from the
 hash (Perl, Python)

---
 perl/client.c   | 2 +-
 python/client.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 9fc64e3..ace079c 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -129,7 +129,7 @@ nscang_client_free(nscang_client_t *c)
 	if (c->state != NSCANG_STATE_NONE)
 		nscang_client_disconnect(c);
 
-	if (c->ssl != NULL) {
+	if (c->ssl != NULL && c->hh.tbl != NULL) {
       HASH_DEL(nscang_client_instances, c);
 	}
 	if (c->ssl != NULL) {
diff --git a/python/client.c b/python/client.c
index ad89d0f..75f9816 100644
--- a/python/client.c
+++ b/python/client.c
@@ -154,7 +154,7 @@ nscang_client_free(nscang_client_t *c)
 	if (c->state != NSCANG_STATE_NONE)
 		nscang_client_disconnect(c);
 
-	if (c->ssl != NULL) {
+	if (c->ssl != NULL && c->hh.tbl != NULL) {
 		int rc;
 
 		/* Busyloop until we get an rw lock. */
-- 
2.43.0


From 465ec7b9bfc6e0f35c835c6c111193a6ac538dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 27/29] fix: don't crash if the object is not initialized, keep
 a copy of the host (Python)

---
 python/nscang.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..ee6d0f3 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -60,6 +60,12 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "NSCAng connection state is not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -94,6 +100,12 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "NSCAng connection state is not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -115,33 +127,46 @@ static int
 NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 {
 	char errstr[1024];
+	char *host = NULL;
+	nscang_client_t *client;
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
 
-	self->host = NULL;
+	if (self->client != NULL) {
+		PyErr_Format(PyExc_RuntimeError,
+		    "NSCAng connection state is already initialized");
+		return -1;
+	}
+
 	self->port = 5668;
 	self->identity = NULL;
 	self->psk = NULL;
 	self->ciphers = NULL;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
+	    &host, &self->port, &self->identity,
 	    &self->psk, &self->ciphers))
 		return -1;
 
-	self->client = malloc(sizeof(nscang_client_t));
-	if (self->client == NULL) {
+	free(self->host);
+	self->host = strdup(host); /* The argument might not outlive us. */
+	client = malloc(sizeof(nscang_client_t));
+	if (self->host == NULL || client == NULL) {
+		free(client);
 		PyErr_Format(PyExc_MemoryError,
 		    "Can't allocate memory for NSCAng connection state");
 		return -1;
 	}
 
-	if (!nscang_client_init(self->client, self->host, self->port,
+	if (!nscang_client_init(client, self->host, self->port,
 		self->ciphers, self->identity, self->psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
-		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		    nscang_client_errstr(client, errstr, sizeof(errstr)));
+		nscang_client_free(client);
+		free(client);
 		return -1;
 	}
+	self->client = client;
 
 	return 0;
 }
@@ -149,7 +174,11 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+	}
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 275a72028aac5b91192e6b4dce6586d321f682d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 28/29] fix: don't let the read and write callbacks trigger
 each other endlessly

---
 src/common/tls.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index d954e98..909a143 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -62,8 +62,12 @@
  *   watcher for the opposite I/O direction is currently active.  If so, we use
  *   ev_feed_event() to feed the event that watcher is waiting for into the
  *   event loop (we check the `events' member of the `ev_io' struct to find out
- *   whether it's EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write()
- *   call, which updates the state of that stream.
+ *   whether it's EV_READ or EV_WRITE), plus EV_CUSTOM.  This forces an
+ *   SSL_read()/SSL_write() call, which updates the state of that stream.  The
+ *   EV_CUSTOM flag tells the callback not to reset the other watcher in turn.
+ *   Otherwise, the two callbacks would invoke each other forever while neither
+ *   of them can make any progress (e.g., because the peer doesn't read our
+ *   output), and the event loop wouldn't get around to anything else.
  *
  * For additional explanations, see the relevant OpenSSL man pages and the
  * following thread:
@@ -651,12 +655,13 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+read_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
+	if (!(revents & EV_CUSTOM))
+		reset_watcher_state(EV_A_ &tls->write_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
@@ -668,12 +673,13 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+write_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
+	if (!(revents & EV_CUSTOM))
+		reset_watcher_state(EV_A_ &tls->read_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	do {
@@ -893,7 +899,7 @@ reset_watcher_state(EV_P_ ev_io *w)
 	if (ev_is_active(w)) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
-		ev_feed_event(EV_A_ w, w->events);
+		ev_feed_event(EV_A_ w, w->events | EV_CUSTOM);
 	}
 }
 
-- 
2.43.0


From 1fb696172b4597c81a95ea1ab71dd3e9f4bd8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 29/29] fix: really overwrite the copies of values read by the
 client

The compiler drops a memset(3) of memory that isn't used afterwards, so
the password was left behind on the stack and in released memory.
---
 src/client/conf.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 6dba6cd..4742761 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -66,6 +66,7 @@ static unsigned long line_number = 0;
 static conf *lookup_conf(conf * restrict, const char * restrict);
 static void parse_conf_file(const char * restrict, conf * restrict);
 static char *read_conf_line(FILE *);
+static void wipe(char *);
 
 /*
  * Exported functions.
@@ -285,8 +286,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		}
 
 		/* Forget this copy of the value, in case it's sensitive. */
-		(void)memset(value, 0, strlen(value));
-		(void)memset(line, 0, strlen(line));
+		wipe(value);
+		wipe(line);
 		free(line);
 	}
 
@@ -329,4 +330,14 @@ read_conf_line(FILE *f)
 	return xrealloc(line, pos + 1);
 }
 
+static void
+wipe(char *string)
+{
+	volatile char *p;
+
+	/* The compiler may drop a memset(3) of memory that isn't used again. */
+	for (p = string; *p != '\0'; p++)
+		*p = '\0';
+}
+
 /* vim:set joinspaces noexpandtab textwidth=80 cinoptions=(4,u0: */
-- 
2.43.0

