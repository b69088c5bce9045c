From a5f58fe348000855ad2c165b01b90ed17e33cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:11 +0000
Subject: [PATCH 01/86] fix: reject GET/HEAD requests with a chunked body
 instead of parsing the body as next request

---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..6e43b8f 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -280,9 +280,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* content-length and transfer-encoding are forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length or transfer-encoding -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 79bbbd5810bd46c59aff3cc8122f788ed2468849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:11 +0000
Subject: [PATCH 02/86] fix: don't keep a connection alive if the request body
 wasn't read completely

---
 src/main/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..0ac4a92 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -561,6 +561,9 @@ void li_connection_request_done(liConnection *con) {
 
 	li_plugins_handle_close(con);
 
+	/* can't find the start of the next request if the request body wasn't read completely */
+	if (!con->in.out->is_closed) con->info.keep_alive = FALSE;
+
 	s = g_atomic_int_get(&con->srv->dest_state);
 	if (con->info.keep_alive &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
 		li_connection_reset_keep_alive(con);
-- 
2.43.0


From 7a000bb61d5a44103f2868ece73e833022bd94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:58 +0000
Subject: [PATCH 03/86] fix: reject requests with multiple or malformed
 Content-Length headers

---
 src/main/request.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 6e43b8f..2c71831 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,12 +188,28 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+	if (l) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
+		if (NULL != li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+			/* more than one "content-length" header */
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
+		/* strtoll would accept whitespace, a sign and the empty string */
+		if (!g_ascii_isdigit(*val)) {
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
+		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
 		if (*err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
-- 
2.43.0


From 58657dc9c800a4135c624c1308d9bea22ac92c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:05 +0000
Subject: [PATCH 04/86] fix: resume reading from a client after its input queue
 limit was reached

---
 src/main/stream.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/main/stream.c b/src/main/stream.c
index 0b8d461..95010ca 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -338,13 +338,30 @@ static void iostream_destroy(liIOStream *iostream) {
 	g_slice_free(liIOStream, iostream);
 }
 
+static void iostream_in_watch_limit(liIOStream *iostream) {
+	liStream *stream = &iostream->stream_in;
+	if (NULL != iostream->stream_in_limit) {
+		if (&iostream->io_watcher == iostream->stream_in_limit->io_watcher) {
+			iostream->stream_in_limit->io_watcher = NULL;
+		}
+		li_cqlimit_release(iostream->stream_in_limit);
+	}
+	if (stream->out->limit) {
+		stream->out->limit->io_watcher = &iostream->io_watcher;
+		li_cqlimit_acquire(stream->out->limit);
+	}
+	iostream->stream_in_limit = stream->out->limit;
+}
+
 static void iostream_in_cb(liStream *stream, liStreamEvent event) {
 	liIOStream *iostream = LI_CONTAINER_OF(stream, liIOStream, stream_in);
 
 	switch (event) {
 	case LI_STREAM_NEW_DATA:
 		if (0 == li_chunkqueue_limit_available(stream->out)) {
-			/* locked */
+			/* locked: wait for the limit to enable the READ event again */
+			if (stream->out->limit != iostream->stream_in_limit) iostream_in_watch_limit(iostream);
+			iostream->can_read = FALSE;
 			return;
 		}
 		if (!iostream->throttled_in && iostream->can_read) {
@@ -371,17 +388,7 @@ static void iostream_in_cb(liStream *stream, liStreamEvent event) {
 		}
 		break;
 	case LI_STREAM_NEW_CQLIMIT:
-		if (NULL != iostream->stream_in_limit) {
-			if (&iostream->io_watcher == iostream->stream_in_limit->io_watcher) {
-				iostream->stream_in_limit->io_watcher = NULL;
-			}
-			li_cqlimit_release(iostream->stream_in_limit);
-		}
-		if (stream->out->limit) {
-			stream->out->limit->io_watcher = &iostream->io_watcher;
-			li_cqlimit_acquire(stream->out->limit);
-		}
-		iostream->stream_in_limit = stream->out->limit;
+		iostream_in_watch_limit(iostream);
 		break;
 	case LI_STREAM_CONNECTED_SOURCE:
 		/* there is no incoming data */
-- 
2.43.0


From cd7b28ce7afb094facca5eb463bf70c628e78c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 05/86] fix: reset chunked request body decoder state before
 reusing a connection object

---
 src/main/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 0ac4a92..eed3701 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -765,6 +765,8 @@ static void li_connection_reset2(liConnection *con) {
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
 
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
+
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
 	g_string_truncate(con->info.local_addr_str, 0);
-- 
2.43.0


From 6a050c73041599214334fb8aec2e7495552030d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:50 +0000
Subject: [PATCH 06/86] fix: linger on close so the client receives the whole
 response instead of a connection reset

---
 src/main/stream_simple_socket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 269af98..356189c 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -7,6 +7,7 @@
 
 void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 	int fd = li_event_io_fd(&stream->io_watcher);
+	gboolean in_closed = stream->in_closed; /* already received EOF */
 
 	li_event_detach(&stream->io_watcher);
 
@@ -18,7 +19,7 @@ void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 		stream->stream_in.out->is_closed = TRUE;
 	}
 
-	if (aborted || stream->in_closed) {
+	if (aborted || in_closed) {
 		fd = li_iostream_reset(stream);
 		if (-1 != fd) {
 			shutdown(fd, SHUT_RDWR);
-- 
2.43.0


From fed0810ad0348d48382f86162387f7c75f8eeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 07/86] fix: don't finish a request while its response is still
 in the connection's output queue

---
 src/main/connection.c     | 2 +-
 src/modules/mod_gnutls.c  | 2 +-
 src/modules/mod_openssl.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index eed3701..40b26eb 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -76,7 +76,7 @@ static void simple_tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&data->con, stream, &data->simple_tcp_context, event);
 
-	if (NULL != data->con && data->con->out_has_all_data
+	if (NULL != data->con && data->con->out_has_all_data && 0 == data->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)) {
 		li_stream_simple_socket_flush(stream);
 		li_connection_request_done(data->con);
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index ce030da..0facd75 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -346,7 +346,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
-	if (NULL != conctx->con && conctx->con->out_has_all_data
+	if (NULL != conctx->con && conctx->con->out_has_all_data && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index b3cec9f..3d80004 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -94,7 +94,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
-	if (NULL != conctx->con && conctx->con->out_has_all_data
+	if (NULL != conctx->con && conctx->con->out_has_all_data && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
-- 
2.43.0


From 6348f1fdc92f6dcf168d092a9b33070fb3b8962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 08/86] fix: url decoding of truncated and invalid escape
 sequences

---
 src/common/utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..a75ec3c 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -318,9 +318,9 @@ static int hex2int(unsigned char hex) {
 			res = hex - 'A' + 10;
 		}
 	} else {
-		res = hex - '0';
+		res = (hex <= '9') ? hex - '0' : -1;
 	}
-	if (res > 15)
+	if (res < 0 || res > 15)
 		res = -1;
 
 	return res;
@@ -342,7 +342,7 @@ void li_url_decode(GString *path) {
 				src += 2;
 			} else {
 				/* end of string */
-				return;
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From d5f14ce66c7a1cc1359de62e067c06fc5a64f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 09/86] fix: request scheme of absolute-form request urls (was
 'httphttp')

---
 src/main/request.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 2c71831..e215159 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -122,12 +122,6 @@ gboolean li_request_validate_header(liConnection *con) {
 	GList *l;
 	gboolean transfer_encoding_chunked = FALSE;
 
-	if (con->info.is_ssl) {
-		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("https"));
-	} else {
-		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("http"));
-	}
-
 	switch (req->http_version) {
 	case LI_HTTP_VERSION_1_0:
 		if (!li_http_header_is(req->headers, CONST_STR_LEN("connection"), CONST_STR_LEN("keep-alive")))
@@ -173,6 +167,14 @@ gboolean li_request_validate_header(liConnection *con) {
 		return FALSE;
 	}
 
+	/* the connection determines the scheme, not the client (absolute urls) */
+	g_string_truncate(req->uri.scheme, 0);
+	if (con->info.is_ssl) {
+		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("https"));
+	} else {
+		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("http"));
+	}
+
 	if (req->uri.host->len == 0 && req->uri.authority->len != 0) {
 		if (!li_parse_hostname(&req->uri)) {
 			bad_request(con, 400); /* bad request */
-- 
2.43.0


From 968c1d66c024ad54d3e01fa25fe9f94d109c660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:26 +0000
Subject: [PATCH 10/86] fix: don't append the path twice for request urls with
 a fragment

---
 src/main/url_parser.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 37de7cb..31288cb 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -42,7 +42,7 @@
 	unreserved  = alpha | digit | "-" | "." | "_" | "~";
 
 	# many clients don't encode these, e.g. curl, wget, ...
-	delims      = "<" | ">" | "#" | "%" | '"';
+	delims      = "<" | ">" | "%" | '"';
 	unwise      = " " | "{" | "}" | "|" | "\\" | "^" | "[" | "]" | "`";
 
 	pchar = unreserved | pct_encoded | sub_delims | ":" | "@" | delims | unwise;
-- 
2.43.0


From a199d31fb6d9bc6ad795eb07a34fd59a84072594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 11/86] fix: answer oversized request heads with 413 before
 they are complete (heads above the input buffer limit stalled)

---
 src/main/http_request_parser.rl | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/main/http_request_parser.rl b/src/main/http_request_parser.rl
index 23008d1..9bd14d2 100644
--- a/src/main/http_request_parser.rl
+++ b/src/main/http_request_parser.rl
@@ -144,6 +144,19 @@ void li_http_request_parser_clear(liHttpRequestCtx *ctx) {
 	g_string_free(ctx->h_value, TRUE);
 }
 
+/* sanity check: if the whole http request header is larger than 64kbytes, then something probably went wrong */
+static gboolean li_http_request_too_large(liVRequest *vr, liHttpRequestCtx *ctx) {
+	if (ctx->chunk_ctx.bytes_in <= 64*1024) return FALSE;
+
+	VR_INFO(vr,
+		"request header too large. limit: 64kb, received: %s",
+		li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
+	);
+
+	vr->response.http_status = 413; /* Request Entity Too Large */
+	return TRUE;
+}
+
 liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 	liHandlerResult res;
 
@@ -160,6 +173,8 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 				VR_ERROR(vr, "%s", err->message);
 				g_error_free(err);
 			}
+			/* don't wait for the end of a header which is already too large */
+			if (LI_HANDLER_WAIT_FOR_EVENT == res && li_http_request_too_large(vr, ctx)) return LI_HANDLER_ERROR;
 			return res;
 		}
 
@@ -170,16 +185,7 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 
 	if (li_http_request_parser_has_error(ctx)) return LI_HANDLER_ERROR;
 	if (li_http_request_parser_is_finished(ctx)) {
-		/* sanity check: if the whole http request header is larger than 64kbytes, then something probably went wrong */
-		if (ctx->chunk_ctx.bytes_in > 64*1024) {
-			VR_INFO(vr,
-				"request header too large. limit: 64kb, received: %s",
-				li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
-			);
-
-			vr->response.http_status = 413; /* Request Entity Too Large */
-			return LI_HANDLER_ERROR;
-		}
+		if (li_http_request_too_large(vr, ctx)) return LI_HANDLER_ERROR;
 
 		li_chunkqueue_skip(ctx->chunk_ctx.cq, ctx->chunk_ctx.bytes_in);
 		return LI_HANDLER_GO_ON;
-- 
2.43.0


From b1bc4d6e2f5597f8b58b43dbddd5076117722215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:46 +0000
Subject: [PATCH 12/86] fix: honour If-Range: ignore the Range header if the
 file changed

---
 src/main/plugin_core.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..2b26026 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -541,6 +541,19 @@ static liAction* core_index(liServer *srv, liWorker *wrk, liPlugin* p, liValue *
 }
 
 
+/* "If-Range": the range is only valid for the exact same entity (strong etag comparison or the same modification date) */
+static gboolean core_if_range_valid(liVRequest *vr) {
+	liHttpHeader *hh_if_range, *hh;
+	hh_if_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("if-range"));
+	if (NULL == hh_if_range) return TRUE;
+
+	hh = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("etag"));
+	if (NULL != hh && 0 == strcmp(LI_HEADER_VALUE(hh), LI_HEADER_VALUE(hh_if_range))) return TRUE;
+
+	hh = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("last-modified"));
+	return NULL != hh && 0 == strcmp(LI_HEADER_VALUE(hh), LI_HEADER_VALUE(hh_if_range));
+}
+
 static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpointer *context) {
 	int fd = -1;
 	struct stat st;
@@ -681,8 +694,7 @@ static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpoint
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Accept-Ranges"), CONST_STR_LEN("bytes"));
 
 			hh_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("range"));
-			if (hh_range) {
-				/* TODO: Check If-Range: header */
+			if (hh_range && core_if_range_valid(vr)) {
 				const GString range_str = li_const_gstring(LI_HEADER_VALUE_LEN(hh_range));
 				liParseHttpRangeState rs;
 				gboolean is_multipart = FALSE, done = FALSE;
-- 
2.43.0


From b823fdb316320d9be1759cc3dbeb9d2f8455e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 13/86] fix: use a collision resistant hash for etags

---
 src/main/etag.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/etag.c b/src/main/etag.c
index 873cc66..062f20c 100644
--- a/src/main/etag.c
+++ b/src/main/etag.c
@@ -118,13 +118,16 @@ gboolean li_http_response_handle_cachable(liVRequest *vr) {
 
 void li_etag_mutate(GString *mut, GString *etag) {
 	guint i;
-	guint32 h;
+	guint64 h;
 
-	for (h=0, i=0; i < etag->len; ++i) h = (h<<5)^(h>>27)^(etag->str[i]);
+	/* FNV-1a: changes in different parts of the string must not cancel each other out */
+	for (h = G_GUINT64_CONSTANT(14695981039346656037), i = 0; i < etag->len; ++i) {
+		h = (h ^ (guchar) etag->str[i]) * G_GUINT64_CONSTANT(1099511628211);
+	}
 
 	g_string_truncate(mut, 0);
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
-	li_string_append_int(mut, (guint64) h);
+	li_string_append_int(mut, (gint64) (h >> 1));
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
 }
 
-- 
2.43.0


From 36c15fcd7fd31d614f0b15ef69964bda1f25a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:07 +0000
Subject: [PATCH 14/86] fix: move the memory accounting in
 li_chunkqueue_steal_chunk between queues sharing a limit

---
 src/main/chunk.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..d6dde18 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -740,7 +740,7 @@ goffset li_chunkqueue_steal_all(liChunkQueue *out, liChunkQueue *in) {
 /* steal the first chunk from in and append it to out, return number of bytes stolen */
 goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	liChunk *c;
-	goffset length;
+	goffset length, memusage = 0;
 	GList *l = g_queue_pop_head_link(&in->queue);
 	if (!l) return 0;
 	g_queue_push_tail_link(&out->queue, l);
@@ -751,17 +751,19 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	in->length -= length;
 	out->bytes_in += length;
 	out->length += length;
+	if (c->type == STRING_CHUNK) {
+		memusage = c->data.str->len;
+	} else if (c->type == MEM_CHUNK) {
+		memusage = c->mem->len;
+	} else if (c->type == BUFFER_CHUNK) {
+		memusage = c->data.buffer.length;
+	}
 	if (in->limit != out->limit) {
-		if (c->type == STRING_CHUNK) {
-			cqlimit_update(out, c->data.str->len);
-			cqlimit_update(in, - (goffset)c->data.str->len);
-		} else if (c->type == MEM_CHUNK) {
-			cqlimit_update(out, c->mem->len);
-			cqlimit_update(in, - (goffset)c->mem->len);
-		} else if (c->type == BUFFER_CHUNK) {
-			cqlimit_update(out, c->data.buffer.length);
-			cqlimit_update(in, - (goffset)c->data.buffer.length);
-		}
+		cqlimit_update(out, memusage);
+		cqlimit_update(in, -memusage);
+	} else {
+		out->mem_usage += memusage;
+		in->mem_usage -= memusage;
 	}
 	return length;
 }
-- 
2.43.0


From 8592b9925fcfe18b285262e0ae1b499c40eca7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:10 +0000
Subject: [PATCH 15/86] fix: account the current content when
 li_chunkqueue_use_limit creates a new limit

---
 src/main/chunk.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index d6dde18..0b36abc 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -449,7 +449,10 @@ void li_chunkqueue_free(liChunkQueue *cq) {
 }
 
 void li_chunkqueue_use_limit(liChunkQueue *cq, goffset limit) {
-	if (!cq->limit) cq->limit = li_cqlimit_new();
+	if (!cq->limit) {
+		cq->limit = li_cqlimit_new();
+		cq->limit->current = cq->mem_usage;
+	}
 	li_cqlimit_set_limit(cq->limit, limit);
 }
 
-- 
2.43.0


From f78dad3472538b84ca23d02c39c470508d5b6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 16/86] fix: don't treat a plain memory block as GByteArray if
 extracting from a chunkqueue fails

---
 src/main/chunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 0b36abc..89cba98 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -873,7 +873,6 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 	return TRUE;
 
 error:
-	g_byte_array_set_size(dest, 0);
 	return FALSE;
 }
 
-- 
2.43.0


From 13b1c1a3981afe1abf91d38d3a0bea067bf06d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:52 +0000
Subject: [PATCH 17/86] fix: keep track of the file range in a chunk's memory
 buffer in li_chunkiter_read

---
 src/main/chunk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 89cba98..0a2b3f3 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -145,6 +145,13 @@ read_chunk:
 			length = we_have;
 			g_byte_array_set_size(c->mem, length);
 		}
+		/* remember which part of the file is in mem (see li_chunkiter_read_mmap) */
+		if (MAP_FAILED != c->data.file.mmap.data) {
+			munmap(c->data.file.mmap.data, c->data.file.mmap.length);
+			c->data.file.mmap.data = MAP_FAILED;
+		}
+		c->data.file.mmap.offset = our_start;
+		c->data.file.mmap.length = length;
 		*data_start = (char*) c->mem->data;
 		*data_len = length;
 		break;
-- 
2.43.0


From c94675e0365dbac8125f493384529d751375200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:17 +0000
Subject: [PATCH 18/86] fix: respect write_max in li_network_backend_write

---
 src/main/network_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/network_write.c b/src/main/network_write.c
index ab0f89c..55012d1 100644
--- a/src/main/network_write.c
+++ b/src/main/network_write.c
@@ -14,7 +14,7 @@ liNetworkStatus li_network_backend_write(int fd, liChunkQueue *cq, goffset *writ
 			return did_write_something ? LI_NETWORK_STATUS_SUCCESS : LI_NETWORK_STATUS_FATAL_ERROR;
 
 		ci = li_chunkqueue_iter(cq);
-		switch (li_chunkiter_read(ci, 0, blocksize, &block_data, &block_len, err)) {
+		switch (li_chunkiter_read(ci, 0, MIN(blocksize, *write_max), &block_data, &block_len, err)) {
 		case LI_HANDLER_GO_ON:
 			break;
 		case LI_HANDLER_ERROR:
-- 
2.43.0


From 0ae136c2ffbd16f7c91b0fe7408d1d11a4010669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:37 +0000
Subject: [PATCH 19/86] fix: detect shrunken files and continue after falling
 back from sendfile

---
 src/main/network_sendfile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/network_sendfile.c b/src/main/network_sendfile.c
index fa7b3b5..3e0eea2 100644
--- a/src/main/network_sendfile.c
+++ b/src/main/network_sendfile.c
@@ -188,7 +188,9 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 			return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 		case NSR_FALLBACK:
 			LI_NETWORK_FALLBACK(li_network_backend_write, write_max);
-			break;
+			if (0 == cq->length) return LI_NETWORK_STATUS_SUCCESS;
+			did_write_something = TRUE;
+			continue;
 		case NSR_CLOSE:
 			return LI_NETWORK_STATUS_CONNECTION_CLOSE;
 		case NSR_FATAL_ERROR:
@@ -197,12 +199,12 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 		if (0 == r) {
 			/* don't care about cached stat - file is open */
 			struct stat st;
-			if (-1 == fstat(fd, &st)) {
+			if (-1 == fstat(c->data.file.file->fd, &st)) {
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: Couldn't fstat file: %s", g_strerror(errno));
 				return LI_NETWORK_STATUS_FATAL_ERROR;
 			}
 
-			if (file_offset > st.st_size) {
+			if (file_offset >= st.st_size) {
 				/* file shrank, close the connection */
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: File shrank, aborting");
 				return LI_NETWORK_STATUS_FATAL_ERROR;
-- 
2.43.0


From 7c32ac90cdd36dfa07351e417abe96f042d41e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:56 +0000
Subject: [PATCH 20/86] fix: fix: only pop captures a condition pushed

---
 src/main/actions.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..c009ab2 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -177,10 +177,9 @@ static void action_stack_element_release(liServer *srv, liVRequest *vr, action_s
 		}
 		break;
 	case LI_ACTION_TCONDITION:
-		if (a->data.condition.cond->rvalue.type == LI_COND_VALUE_REGEXP) {
-			/* pop regex stack */
+		if (ase->data.pos > 0) {
+			/* pop regex stack; only conditions that actually matched pushed onto it */
 			GArray *rs = vr->action_stack.regex_stack;
-			/* cheap check to prevent segfault if condition errored without pushing onto stack; whole stack gets cleaned anyways */
 			if (rs->len) {
 				liActionRegexStackElement *arse = &g_array_index(rs, liActionRegexStackElement, rs->len - 1);
 				if (arse->string)
@@ -290,7 +289,7 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 	liAction *a;
 	liActionStack *as = &vr->action_stack;
 	action_stack_element *ase;
-	guint ase_ndx;
+	guint ase_ndx, regex_stack_len;
 	liHandlerResult res;
 	gboolean condres;
 	liServer *srv = vr->wrk->srv;
@@ -383,10 +382,13 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TCONDITION:
 			condres = FALSE;
+			regex_stack_len = as->regex_stack->len;
 			res = li_condition_check(vr, a->data.condition.cond, &condres);
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
+				/* remember whether the condition pushed its captures */
+				ase->data.pos = as->regex_stack->len - regex_stack_len;
 				if (condres) {
 					if (a->data.condition.target) li_action_enter(vr, a->data.condition.target);
 				}
-- 
2.43.0


From b3614fd9cf3dff694413f0a6e0bcf5983ec6a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:00 +0000
Subject: [PATCH 21/86] fix: fix: map: don't lose the action for the second key
 of a list

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 2b26026..249df9d 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1900,7 +1900,7 @@ static liAction* core_map(liServer *srv, liWorker *wrk, liPlugin* p, liValue *va
 					return NULL;
 				}
 
-				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_extract(r));
+				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_copy(r));
 			LI_VALUE_END_FOREACH()
 		}
 	LI_VALUE_END_FOREACH()
-- 
2.43.0


From 6b541c192551aac6e3cf12ce92419c0e3f1fb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:02 +0000
Subject: [PATCH 22/86] fix: fix: pattern ranges: reversed ranges and open
 ranges

---
 src/main/pattern.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..407e7da 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -320,7 +320,7 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- >= to; ) {
+		for (i = from + 1; i-- > to; ) {
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -331,21 +331,24 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
-	guint i;
+	guint i, max;
 	gint start_pos, end_pos;
 
 	if (NULL == match_info) return;
 
+	/* all captures with a higher index are empty */
+	max = MAX(0, g_match_info_get_match_count(match_info));
+
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, max);
 		for (i = from; i <= to; i++) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
+		from = MIN(from, max); /* => from+1 is defined */
+		for (i = from + 1; i-- > to; ) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From 23f363b01dc5c9816e94d7559f212fef8cc9bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:05 +0000
Subject: [PATCH 23/86] fix: fix: config: * and / on integers

---
 src/main/config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a0a6bc1..bb1b81f 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -790,7 +790,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -801,7 +801,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
-- 
2.43.0


From f758b3d08df20a810222b545ca21bab5f8315e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:32 +0000
Subject: [PATCH 24/86] fix: config: 'and' binds stronger than 'or' in
 conditions

---
 src/main/config_parser.rl | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index bb1b81f..ff69898 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1740,30 +1740,33 @@ static gboolean p_condition_expr(liConditionTree **tree, liConfigToken preOp, li
 	liConfigToken op = TK_ERROR;
 
 	for (;;) {
-		gboolean negated = FALSE;
-		NEXT(token);
-		if (TK_NOT == token) {
-			negated = TRUE;
+		if (result == NULL) {
+			gboolean negated = FALSE;
 			NEXT(token);
-		}
+			if (TK_NOT == token) {
+				negated = TRUE;
+				NEXT(token);
+			}
 
-		if (TK_PARA_OPEN == token) {
-			if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
-			NEXT(token);
-			if (TK_PARA_CLOSE != token) {
-				parse_error(ctx, error, "expected ')'");
-				goto error;
+			if (TK_PARA_OPEN == token) {
+				if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+				NEXT(token);
+				if (TK_PARA_CLOSE != token) {
+					parse_error(ctx, error, "expected ')'");
+					goto error;
+				}
+			} else {
+				REMEMBER(token);
+				if (!p_condition_value(&leave, ctx, error)) goto error;
 			}
-		} else {
-			REMEMBER(token);
-			if (!p_condition_value(&leave, ctx, error)) goto error;
-		}
-		if (negated) leave->negated = !leave->negated;
+			if (negated) leave->negated = !leave->negated;
 
-		if (result == NULL) {
 			result = leave;
 		} else {
-			liConditionTree *tmp = g_slice_new0(liConditionTree);
+			liConditionTree *tmp;
+			/* operators binding stronger than "op" belong to the right operand */
+			if (!p_condition_expr(&leave, op, ctx, error)) goto error;
+			tmp = g_slice_new0(liConditionTree);
 			tmp->negated = FALSE;
 			tmp->op = op;
 			tmp->left = result;
-- 
2.43.0


From 5d11a9d147ca5820fb5086ea90fa271466046527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:52 +0000
Subject: [PATCH 25/86] fix: config: keep the sign of negative integers

---
 src/main/config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index ff69898..22caedb 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -316,12 +316,12 @@ GQuark li_config_error_quark(void) {
 		| 'days'    %{ ctx->suffix_factor = G_GINT64_CONSTANT(24)*3600; }
 		);
 	integer_suffix = ( integer_suffix_bytes | integer_suffix_bits | integer_suffix_seconds ) %integer_suffix;
-	integer_base = ('-'@int_negative)?
+	integer_base = (('-'@int_negative)?
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
 		| '0' ([0-9]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
-		)>int_start;
+		))>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
 	integer = (integer_base noise integer_suffix?)%integer (noise_char | operator_char);
 
-- 
2.43.0


From 10246ab13209518d1d934bf521334b7a77d095ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:33 +0000
Subject: [PATCH 26/86] fix: config: integer overflow checks

---
 src/main/config_parser.rl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 22caedb..f120a00 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -220,12 +220,12 @@ GQuark li_config_error_quark(void) {
 	action dec_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number + digit;
@@ -234,12 +234,12 @@ GQuark li_config_error_quark(void) {
 	action oct_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number + digit;
@@ -251,12 +251,12 @@ GQuark li_config_error_quark(void) {
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number + digit;
@@ -267,7 +267,7 @@ GQuark li_config_error_quark(void) {
 			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
-		} else if (ctx->token_number < 0) {
+		} else {
 			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
-- 
2.43.0


From fbfb2374cdbd4670ab275d53b99a42a12f8f338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:36 +0000
Subject: [PATCH 27/86] fix: config: e-strings

---
 src/main/config_parser.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index f120a00..99d5946 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -350,7 +350,11 @@ GQuark li_config_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# a quote following a single 'e' starts an e-string
+	name =
+		( ( (alpha | '_') (alnum | [._])* - keywords - 'e') >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name (noise_char | (operator_char - ['"]))?
+		);
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
-- 
2.43.0


From b2ace1edfdc4a0180a187f65df44688a1da2ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:39 +0000
Subject: [PATCH 28/86] fix: config: report invalid conditions instead of
 crashing

---
 src/main/config_parser.rl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 99d5946..14ff3d0 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1721,6 +1721,11 @@ static gboolean p_condition_value(liConditionTree **tree, liConfigTokenizerConte
 		parse_error(ctx, error, "wrong value type, require string or integer");
 		goto error;
 	}
+	if (NULL == cond) {
+		lvalue = NULL; /* might already be released */
+		parse_error(ctx, error, "invalid condition");
+		goto error;
+	}
 	li_value_free(rvalue);
 
 boolcond:
-- 
2.43.0


From 995d8c5bac8e52be444bbf81151ca08ba9c5b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:45 +0000
Subject: [PATCH 29/86] fix: config: don't use freed string in cast(int) error
 message

---
 src/main/config_parser.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 14ff3d0..7f7e6c3 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1380,8 +1380,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
-- 
2.43.0


From e3533f19e86e5f8524cba0014ade383cdea4ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 30/86] fix: chunked encoding: length of pieces >= 4 GiB

---
 src/main/filter_chunked.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..75f3d39 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -8,7 +8,7 @@ static void http_chunk_append_len(liChunkQueue *cq, size_t len) {
 
 	a = g_byte_array_sized_new(sizeof(len) * 2 + 2);
 
-	for (i = 0; i < 8 && len; i++) {
+	for (i = 0; i < 2 * sizeof(len) && len; i++) {
 		len >>= 4;
 	}
 
-- 
2.43.0


From 05cf45c9770eebe6399bf9e33a15f7860ba7bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:31 +0000
Subject: [PATCH 31/86] fix: mod_fastcgi: finish the response when the backend
 closes without END_REQUEST

---
 src/modules/fastcgi_stream.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..fd67f0a 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -519,7 +519,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					fastcgi_reset(ctx);
 					return;
 				}
-				if (in->length < 8) return; /* wait for more */
+				if (in->length < 8) goto wait_for_more;
 
 				{
 					unsigned char endreq[8];
@@ -621,6 +621,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		}
 	}
 
+wait_for_more:
 	if (NULL != ctx->iostream && (in->is_closed && !ctx->request_done)) {
 		if (0 != in->length || !ctx->stdout_closed) {
 			fcgi_debug("unexpected eof, still have partial fastcgi record header\n");
@@ -628,6 +629,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
 		}
 	}
-- 
2.43.0


From 77f7123b61215983c43258b986607dfc930a8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:34 +0000
Subject: [PATCH 32/86] fix: don't send Content-Length together with
 Transfer-Encoding: chunked

---
 src/main/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..2e4c9fd 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,9 +62,10 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
 		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
+			/* must not send both */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
 		}
 	} else {
-- 
2.43.0


From d93a9df6a658b47058c6b5571be9a8f45cb77f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:37 +0000
Subject: [PATCH 33/86] fix: send Content-Length: 0 for 205 responses

---
 src/main/response.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 2e4c9fd..f08ce74 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -50,11 +50,15 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	if ((vr->response.http_status >= 100 && vr->response.http_status < 200) ||
 	     vr->response.http_status == 204 ||
-	     vr->response.http_status == 205 ||
 	     vr->response.http_status == 304) {
 		/* They never have a content-body/length */
 		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
 		if (!upgraded) raw_out->is_closed = TRUE;
+	} else if (vr->response.http_status == 205) {
+		/* never has a body, but needs to indicate that */
+		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
+		li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), CONST_STR_LEN("0"));
+		if (!upgraded) raw_out->is_closed = TRUE;
 	} else if (response_complete) {
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
 			/* do not send content-length: 0 if backend already skipped content generation for HEAD */
-- 
2.43.0


From f00c60663185f26e37fdb6a97f7a4d6d68fa5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:40 +0000
Subject: [PATCH 34/86] fix: answer unusable response status codes with just an
 error page

---
 src/main/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index f08ce74..740dc59 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -29,11 +29,12 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 	gboolean have_real_body, response_complete;
 	liChunkQueue *tmp_cq = NULL;
 
-	if (vr->response.http_status < 100 || vr->response.http_status > 999) {
+	if (vr->response.http_status < (upgraded ? 100 : 200) || vr->response.http_status > 999) {
 		VR_ERROR(vr, "wrong status: %i, internal error", vr->response.http_status);
 		vr->response.http_status = 500;
 		vr->coninfo->keep_alive = FALSE;
 		response_body = NULL;
+		if (!upgraded) raw_out->is_closed = TRUE; /* drop the real body */
 	}
 
 	have_real_body = (NULL != response_body) && ((response_body->length > 0) || !response_body->is_closed);
-- 
2.43.0


From c60a7ddeeb26dd81671baab82e9d019c1fafec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:43 +0000
Subject: [PATCH 35/86] fix: ignore all interim responses from backends

---
 src/main/http_response_parser.rl | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9c8a9cb..b6453ea 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -23,14 +23,9 @@
 	action status {
 		getStringTo(fpc, ctx->h_value);
 		ctx->response->http_status = atoi(ctx->h_value->str);
-		switch (ctx->response->http_status) {
-		case 100: /* Continue */
-		case 102: /* Processing */
+		/* ignore interim responses, but not 101 Switching Protocols */
+		if (ctx->response->http_status >= 100 && ctx->response->http_status < 200 && 101 != ctx->response->http_status) {
 			ctx->drop_header = TRUE;
-			break;
-			/* don't ignore 101 Switching Protocols */
-		default:
-			break;
 		}
 	}
 
-- 
2.43.0


From 30d12deeec82816849b9bfd79485d9aa86ac11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:36 +0000
Subject: [PATCH 36/86] fix: parse the response following an interim backend
 response in the same packet

---
 src/main/http_response_parser.rl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index b6453ea..c8a95ed 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -150,6 +150,8 @@ static gboolean li_http_response_handle_finished(liHttpResponseCtx *ctx) {
 	li_chunkqueue_skip(ctx->chunk_ctx.cq, ctx->chunk_ctx.bytes_in);
 	if (ctx->drop_header) {
 		li_http_response_parser_reset(ctx);
+		/* continue with the next response header in the remaining data */
+		li_chunk_parser_prepare(&ctx->chunk_ctx);
 		return FALSE;
 	} else {
 		if (ctx->response->http_status == 0) ctx->response->http_status = 200;
-- 
2.43.0


From 2d7060f7f4b2ae1f77be8dc50d120383969a335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:39 +0000
Subject: [PATCH 37/86] fix: mod_fastcgi: ignore data following END_REQUEST

---
 src/modules/fastcgi_stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index fd67f0a..9003323 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -481,6 +481,12 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 	while (NULL != ctx->iostream && 0 < in->length) {
 		gboolean newdata = FALSE;
 
+		if (ctx->request_done) {
+			/* connections are not reused: ignore everything after the end of the request */
+			li_chunkqueue_skip_all(in);
+			break;
+		}
+
 		if (0 == ctx->remainingContent && 0 == ctx->remainingPadding) {
 			unsigned char header[FCGI_HEADER_LEN];
 			if (in->length < FCGI_HEADER_LEN) break;
-- 
2.43.0


From 23bd89ed7e9e318d16341b1a1ed8e0c9cb8dc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:35 +0000
Subject: [PATCH 38/86] fix: don't handle a connection reset like the end of
 the stream

---
 src/main/network.c              | 2 ++
 src/main/stream_simple_socket.c | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/network.c b/src/main/network.c
index 5b020c9..9fd16c6 100644
--- a/src/main/network.c
+++ b/src/main/network.c
@@ -138,6 +138,8 @@ liNetworkStatus li_network_read(int fd, liChunkQueue *cq, goffset read_max, liBu
 				return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 			case ECONNRESET:
 			case ETIMEDOUT:
+				/* not an orderly end of the stream */
+				g_set_error(err, LI_NETWORK_ERROR, 0, "li_network_read: read from fd=%d failed: %s", fd, g_strerror(errno) );
 				return LI_NETWORK_STATUS_CONNECTION_CLOSE;
 			default:
 				g_set_error(err, LI_NETWORK_ERROR, 0, "li_network_read: oops, read from fd=%d failed: %s", fd, g_strerror(errno) );
diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 356189c..c54e023 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -91,6 +91,12 @@ static void stream_simple_socket_read(liIOStream *stream, gpointer *data) {
 		li_stream_simple_socket_close(stream, TRUE);
 		break;
 	case LI_NETWORK_STATUS_CONNECTION_CLOSE:
+		if (NULL != err) {
+			/* connection reset: don't handle it like EOF */
+			g_error_free(err);
+			li_stream_simple_socket_close(stream, TRUE);
+			break;
+		}
 		li_event_io_rem_events(&stream->io_watcher, LI_EV_READ);
 		stream->stream_in.out->is_closed = TRUE;
 		stream->in_closed = TRUE;
-- 
2.43.0


From 8213174704bd893806e429593df0e1cf18459983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:38 +0000
Subject: [PATCH 39/86] fix: abort responses truncated by the backend

---
 src/main/stream_http_response.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..0889843 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -225,6 +225,9 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			/* truncated response */
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From e5093d8dbe196273698628e34cc349f11ef638ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:20 +0000
Subject: [PATCH 40/86] fix: abort the request if the backend fails before the
 response is connected

---
 src/main/stream_http_response.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 0889843..f0ae3ab 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -246,11 +246,18 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 		li_stream_disconnect(stream);
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
-		shr->vr = NULL;
 		if (!stream->out->is_closed) {
+			liVRequest *vr = shr->vr;
+			shr->vr = NULL;
 			/* "abort" */
-			li_stream_disconnect_dest(stream);
+			if (NULL != stream->dest) {
+				li_stream_disconnect_dest(stream);
+			} else if (NULL != vr && vr->backend_source == stream) {
+				/* not connected to the vrequest yet: nobody else is going to notice */
+				li_vrequest_error(vr);
+			}
 		}
+		shr->vr = NULL;
 		break;
 	case LI_STREAM_DESTROY:
 		li_http_response_parser_clear(&shr->parse_response_ctx);
-- 
2.43.0


From 1bb1f42bb6704c212fe760bde214000e96425cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 41/86] fix: combine repeated request headers into one CGI
 variable

---
 src/main/environment.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/main/environment.c b/src/main/environment.c
index 2fcc9d7..7b662db 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -177,11 +177,16 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 	}
 
 	{
+		/* several headers can map to the same variable: combine them, there must be only one value per name */
+		GHashTable *vars = g_hash_table_new((GHashFunc) g_string_hash, (GEqualFunc) g_string_equal);
+		GPtrArray *names = g_ptr_array_new();
 		GList *i;
+		guint j;
 
 		for (i = vr->request.headers->entries.head; NULL != i; i = i->next) {
 			liHttpHeader *h = (liHttpHeader*) i->data;
 			const GString hkey = li_const_gstring(h->data->str, h->keylen);
+			GString *val;
 			g_string_truncate(tmp, 0);
 			if (!li_strncase_equal(&hkey, CONST_STR_LEN("CONTENT-TYPE"))) {
 				li_g_string_append_len(tmp, CONST_STR_LEN("HTTP_"));
@@ -189,8 +194,30 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 			li_g_string_append_len(tmp, h->data->str, h->keylen);
 			cgi_fix_header_name(tmp);
 
-			add_env_var(envdup, callback, param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
+			val = g_hash_table_lookup(vars, tmp);
+			if (NULL == val) {
+				GString *name = g_string_new_len(GSTR_LEN(tmp));
+				val = g_string_sized_new(0);
+				g_ptr_array_add(names, name);
+				g_hash_table_insert(vars, name, val);
+			} else if (li_strncase_equal(&hkey, CONST_STR_LEN("Cookie"))) {
+				li_g_string_append_len(val, CONST_STR_LEN("; "));
+			} else {
+				li_g_string_append_len(val, CONST_STR_LEN(", "));
+			}
+			li_g_string_append_len(val, h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
+		}
+
+		for (j = 0; j < names->len; j++) {
+			GString *name = g_ptr_array_index(names, j);
+			GString *val = g_hash_table_lookup(vars, name);
+			add_env_var(envdup, callback, param, GSTR_LEN(name), GSTR_LEN(val));
+			g_hash_table_remove(vars, name);
+			g_string_free(name, TRUE);
+			g_string_free(val, TRUE);
 		}
+		g_ptr_array_free(names, TRUE);
+		g_hash_table_destroy(vars);
 	}
 
 	{
-- 
2.43.0


From 9d298159529b675627496d3f9a334685a33bbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:38 +0000
Subject: [PATCH 42/86] fix: radix tree: use the next key word when descending
 on removal

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..107c77a 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *(++input);
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From 6869d14785f7d1d9f5473f88e2b4169fc6656879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:41 +0000
Subject: [PATCH 43/86] fix: ip parser: store the result of ipv6 addresses
 without ::

---
 src/common/ip_parsers.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..f26e0cb 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,7 +134,11 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+		memcpy(ip, predata, 16);
+		return TRUE;
+	}
 	if (prec + postc > 7) return FALSE;
 	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
 	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
-- 
2.43.0


From 82258740421f324456c8758fea3480d20185865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:43 +0000
Subject: [PATCH 44/86] fix: ip parser: don't overflow on long numbers

---
 src/common/ip_parsers.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index f26e0cb..fdb324a 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -5,7 +5,8 @@
 	machine ipv4_parser;
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# all limits are smaller than 100000, don't overflow
+	action dc_step { if (tmpval < 100000) tmpval = 10*tmpval + (fc - '0'); }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
@@ -58,7 +59,8 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 	action mark { mark = fpc; }
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# all limits are smaller than 100000, don't overflow
+	action dc_step { if (tmpval < 100000) tmpval = 10*tmpval + (fc - '0'); }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
-- 
2.43.0


From 908691177870203839a7070ce15b816524d78f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 45/86] fix: ip parser: don't accept ipv6 addresses ending with
 a single colon

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index fdb324a..65044d5 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -100,7 +100,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 		postc += 2;
 	};
 
-	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } (postgroup ":")* (postgroup | post_ipv4)?) | (pregroup | pre_ipv4));
+	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } ((postgroup ":")* (postgroup | post_ipv4))?) | (pregroup | pre_ipv4));
 
 	# so we don't need pe/eof vars
 	end = (space | 0) @{ cs = ipv6_parser_first_final; fbreak; };
-- 
2.43.0


From 5a05c36b0c757651b174aa2b855bc4135e1bc8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 46/86] fix: mod_access: accept a single network as documented

---
 src/modules/mod_access.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/mod_access.c b/src/modules/mod_access.c
index d0cf555..f038187 100644
--- a/src/modules/mod_access.c
+++ b/src/modules/mod_access.c
@@ -130,6 +130,11 @@ static liAction* access_check_create(liServer *srv, liWorker *wrk, liPlugin* p,
 
 		vIPs = li_value_list_at(v, 1);
 
+		if (LI_VALUE_STRING == li_value_type(vIPs)) {
+			/* ("all") is just a string */
+			li_value_wrap_in_list(vIPs);
+		}
+
 		if (LI_VALUE_LIST != li_value_type(vIPs)) {
 			ERROR(srv, "%s", "access_check expects a list of one or two string,list tuples as parameter");
 			goto failed_free_acd;
-- 
2.43.0


From 94f1cfe1f5b50e39f27eab9c8986dfc0352cb2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 47/86] fix: mod_limit: limit.req needs its mutex

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..7cb9732 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 06b397fe283ad7e26a9df4070b6b5a8e99680499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 48/86] fix: mod_limit: limit.con N allows N connections

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 7cb9732..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -236,13 +236,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From a0be1f4798208edfac859af145ea806ca1840c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 49/86] fix: mod_limit: don't truncate the start of the
 limit.req window

---
 src/modules/mod_limit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 522293e..92bcc97 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -33,7 +33,7 @@ struct mod_limit_context {
 		liRadixTree *con_ip; /* radix tree contains gint, removed on vr_close */
 		struct {
 			gint num;
-			time_t ts;
+			li_tstamp ts;
 		} req;               /* reset when now - ts > 1 */
 		liRadixTree *req_ip; /* radix tree contains (mod_limit_req_ip_data*), removed via waitqueue timer */
 	} pool;
-- 
2.43.0


From d880e52e47eec0d6462f002e2900425c4f3ebd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:49 +0000
Subject: [PATCH 50/86] fix: mod_redirect: encode the request path in relative
 redirects

---
 src/modules/mod_redirect.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_redirect.c b/src/modules/mod_redirect.c
index 48fe8db..174c8d4 100644
--- a/src/modules/mod_redirect.c
+++ b/src/modules/mod_redirect.c
@@ -127,7 +127,12 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 				if (*c == '/') break;
 			}
 
-			li_g_string_append_len(dest, vr->request.uri.path->str, c - vr->request.uri.path->str + 1);
+			/* the request path is decoded */
+			{
+				GString *dir = g_string_new_len(vr->request.uri.path->str, c - vr->request.uri.path->str + 1);
+				li_string_encode_append(dir->str, dest, LI_ENCODING_URI);
+				g_string_free(dir, TRUE);
+			}
 		}
 		break;
 	case REDIRECT_RELATIVE_QUERY:
@@ -135,7 +140,7 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.scheme));
 		li_g_string_append_len(dest, CONST_STR_LEN("://"));
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.authority));
-		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.path));
+		li_string_encode_append(vr->request.uri.path->str, dest, LI_ENCODING_URI);
 		break;
 	}
 
-- 
2.43.0


From d581943ea1678d29f4384258fc1dcbb29febd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 51/86] fix: mod_auth: don't take a ':' on the next line as
 delimiter of this one

---
 src/modules/mod_auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..cdbedeb 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -81,6 +81,9 @@ static AuthFileData* auth_file_load(liServer *srv, AuthFile *f) {
 			if ('\n' == *c || '\r' == *c) {
 				*c = '\0';
 				found_newline = TRUE;
+			} else if (found_newline) {
+				/* next line; a ':' there doesn't belong to this one */
+				break;
 			} else if (':' == *c) {
 				if (NULL == password) {
 					password = c+1;
@@ -88,8 +91,6 @@ static AuthFileData* auth_file_load(liServer *srv, AuthFile *f) {
 				} else {
 					found_realm = TRUE;
 				}
-			} else if (found_newline) {
-				break;
 			}
 		}
 
-- 
2.43.0


From b29b192b26e0ce16ef4b0cbe9e27d3e3e0b1b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:24 +0000
Subject: [PATCH 52/86] fix: mod_auth: htdigest: compare the whole realm, not
 only a prefix

---
 src/modules/mod_auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index cdbedeb..6a7f46b 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -306,7 +306,7 @@ static gboolean auth_backend_htdigest(liVRequest *vr, const GString *username, c
 	pass = strchr(pass, ':');
 
 	/* no realm/wrong realm? */
-	if (NULL == pass || 0 != strncmp(realm, bdata->realm->str, bdata->realm->len)) {
+	if (NULL == pass || (gsize)(pass - realm) != bdata->realm->len || 0 != strncmp(realm, bdata->realm->str, bdata->realm->len)) {
 		if (debug) {
 			VR_DEBUG(vr, "Realm for user \"%s\" doesn't match", username->str);
 		}
-- 
2.43.0


From 34fa3d2c7e7386380715d1666027dd080d592140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 53/86] fix: backends: close the socket when a connect times
 out

---
 src/main/backends.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..f47fe74 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -294,8 +294,9 @@ static void backend_pool_worker_connect_timeout(liWaitQueue *wq, gpointer data)
 
 	while (NULL != (elem = li_waitqueue_pop(wq))) {
 		liBackendConnection_p *con = LI_CONTAINER_OF(elem, liBackendConnection_p, timeout_elem);
+		int fd = li_event_io_fd(&con->public.watcher);
 		li_event_clear(&con->public.watcher);
-		close(li_event_io_fd(&con->public.watcher));
+		close(fd);
 		g_slice_free(liBackendConnection_p, con);
 
 		ERROR(srv, "Couldn't connect to '%s': timeout",
-- 
2.43.0


From 7b8bcc613a0120f6f6694525ac7e49f14bbad8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 54/86] fix: mod_accesslog: escape bytes >= 0x80 as \xHH

---
 src/modules/mod_accesslog.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..a932dfb 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -109,7 +109,8 @@ static void al_append_escaped(GString *log, GString *str) {
 	/* replaces non-printable chars with \xHH where HH is the hex representation of the byte */
 	/* exceptions: " => \", \ => \\, whitespace chars => \n \t etc. */
 	for (guint i = 0; i < str->len; i++) {
-		switch (str->str[i]) {
+		guchar c = (guchar) str->str[i];
+		switch (c) {
 		case '"': li_g_string_append_len(log, CONST_STR_LEN("\\\"")); break;
 		case '\\': li_g_string_append_len(log, CONST_STR_LEN("\\\\")); break;
 		case '\b': li_g_string_append_len(log, CONST_STR_LEN("\\b")); break;
@@ -118,15 +119,15 @@ static void al_append_escaped(GString *log, GString *str) {
 		case '\t': li_g_string_append_len(log, CONST_STR_LEN("\\t")); break;
 		case '\v': li_g_string_append_len(log, CONST_STR_LEN("\\v")); break;
 		default:
-			if (str->str[i] >= ' ' && str->str[i] <= '~') {
+			if (c >= ' ' && c <= '~') {
 				/* printable chars */
-				g_string_append_c(log, str->str[i]);
+				g_string_append_c(log, c);
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				gchar h = c / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = c % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From d3505e702774e310929eb5f14e5160cb302b94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:28 +0000
Subject: [PATCH 55/86] fix: mod_accesslog: escape client controlled data in
 %u, %U and %f

---
 src/modules/mod_accesslog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index a932dfb..2c5168b 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -252,7 +252,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -310,12 +310,12 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
-- 
2.43.0


From 1a1f60ce57aecc238f7d35e65d1b174cce9cc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 56/86] fix: mod_accesslog: %v: use the request's host if
 server.name is not set

---
 src/modules/mod_accesslog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 2c5168b..9e1d118 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -318,7 +318,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
-				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
+				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string && CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string->len)
 					li_g_string_append_len(str, GSTR_LEN(CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string));
 				else
 					li_g_string_append_len(str, GSTR_LEN(req->uri.host));
-- 
2.43.0


From 1869cfd9e5ca04e987d9edd7ac937228f8ae8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 57/86] fix: log: don't dereference NULL for an empty log
 target

---
 src/main/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/log.c b/src/main/log.c
index 0eb6b72..48ba945 100644
--- a/src/main/log.c
+++ b/src/main/log.c
@@ -357,6 +357,7 @@ static void log_watcher_cb(liEventBase *watcher, int events) {
 
 		if (NULL == log) {
 			/* explicit empty target, ignore */
+			goto next;
 		} else if (-1 == log->fd) {
 			/* failed opening log file */
 			li_log_write_stderr(srv, msg->str, TRUE);
-- 
2.43.0


From d159f094511fc94897dffe804d14d32d86b1036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 58/86] fix: mod_accesslog: %b and %B: don't count headers, use
 '-' for an empty body in %b

---
 include/lighttpd/virtualrequest.h |  3 +++
 src/main/response.c               |  1 +
 src/modules/mod_accesslog.c       | 16 +++++++++++-----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/lighttpd/virtualrequest.h b/include/lighttpd/virtualrequest.h
index d9e21f4..3c03a5c 100644
--- a/include/lighttpd/virtualrequest.h
+++ b/include/lighttpd/virtualrequest.h
@@ -60,6 +60,9 @@ struct liConInfo {
 	/* bytes in our "raw-io-out-queue" that hasn't be sent yet. (whatever "sent" means - in ssl buffer, kernel, ...) */
 	goffset out_queue_length;
 
+	/* number of bytes in "resp->out" before the response body */
+	goffset response_header_bytes;
+
 	/* use li_vrequest_update_stats_{in,out} to update this */
 	struct {
 		guint64 bytes_in; /* total number of bytes received */
diff --git a/src/main/response.c b/src/main/response.c
index 740dc59..a9fdce9 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -150,6 +150,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	li_g_string_append_len(head, CONST_STR_LEN("\r\n"));
 	li_chunkqueue_append_string(raw_out, head);
+	vr->coninfo->response_header_bytes = raw_out->bytes_in;
 
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 9e1d118..530e45e 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -76,8 +76,8 @@ static const al_format al_format_mapping[] = {
 	{ '%', FALSE, AL_FORMAT_PERCENT },
 	{ 'a', FALSE, AL_FORMAT_REMOTE_ADDR },
 	{ 'A', FALSE, AL_FORMAT_LOCAL_ADDR },
-	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE },
-	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE },
 	{ 'C', FALSE, AL_FORMAT_COOKIE },
 	{ 'D', FALSE, AL_FORMAT_DURATION_MICROSECONDS },
 	{ 'e', TRUE, AL_FORMAT_ENV },
@@ -208,6 +208,12 @@ static GArray *al_parse_format(liServer *srv, const gchar *formatstr) {
 	return arr;
 }
 
+/* number of bytes of the response sent so far, without headers */
+static goffset al_response_bytes(liVRequest *vr) {
+	if (NULL == vr->coninfo->resp) return 0;
+	return MAX(0, vr->coninfo->resp->out->bytes_out - vr->coninfo->response_header_bytes);
+}
+
 static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 	GString *str = g_string_sized_new(255);
 	liResponse *resp = &vr->response;
@@ -232,11 +238,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(vr->coninfo->local_addr_str));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE:
-				li_string_append_int(str, (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0);
+				li_string_append_int(str, al_response_bytes(vr));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE_CLF:
-				if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out)
-					li_string_append_int(str, vr->coninfo->resp->out->bytes_out);
+				if (al_response_bytes(vr) > 0)
+					li_string_append_int(str, al_response_bytes(vr));
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From 98946fb44e1c34fc7ffe28340114438024f8b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:34 +0000
Subject: [PATCH 59/86] fix: mod_balance: let the outer balancer handle
 failures of a nested one

---
 src/modules/mod_balance.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index fef48d3..e3e3eb1 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -329,6 +329,10 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 		} else {
 			li_vrequest_backend_overloaded(vr);
 		}
+
+		g_mutex_unlock(b->lock);
+
+		return LI_HANDLER_GO_ON;
 	}
 
 	/* don't backlog scheduled requests */
@@ -406,7 +410,7 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 			_balancer_backlog_update_watcher(vr->wrk, b);
 		}
 
-		if (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit) {
+		if (!backlog_provided && (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit)) {
 			_balancer_context_backlog_push(b, context, vr);
 
 			g_mutex_unlock(b->lock);
-- 
2.43.0


From 4e0082afe0dd34266d1ae099e18bb6dafdde9f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:50 +0000
Subject: [PATCH 60/86] fix: mod_userdir: check the right character for letter
 placeholders

---
 src/modules/mod_userdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_userdir.c b/src/modules/mod_userdir.c
index b587a04..0b3e9fc 100644
--- a/src/modules/mod_userdir.c
+++ b/src/modules/mod_userdir.c
@@ -197,7 +197,7 @@ static liAction* userdir_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 			c_last = c+1;
 			part.type = USERDIR_PART_USERNAME;
 			g_array_append_val(parts, part);
-		} else if (*c == '$' && *(c+1) >= '1' && *(c+2) <= '9') {
+		} else if (*c == '$' && *(c+1) >= '1' && *(c+1) <= '9') {
 			/* letter */
 			if (c - c_last > 0) {
 				/* push last string */
-- 
2.43.0


From 973faea22ed9c1b407d8daf77e191060bf8825c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:52 +0000
Subject: [PATCH 61/86] fix: mod_vhost: use the right free function for
 vhost.map_regex

---
 src/modules/mod_vhost.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 90a073d..96b00ab 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -216,7 +216,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 
 		if (LI_VALUE_ACTION != li_value_type(entryValue)) {
 			ERROR(srv, "vhost.map_regex expects a hashtable/key-value list with action values as parameter, %s value given", li_value_type_string(entryValue));
-			vhost_map_free(srv, mrd);
+			vhost_map_regex_free(srv, mrd);
 			return NULL;
 		}
 
@@ -232,7 +232,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 		if (NULL == entryKeyStr) {
 			if (NULL != mrd->default_action) {
 				ERROR(srv, "%s", "vhost.map_regex: already have a default action");
-				vhost_map_free(srv, mrd);
+				vhost_map_regex_free(srv, mrd);
 				return NULL;
 			}
 			mrd->default_action = li_value_extract(entryValue);
@@ -241,16 +241,17 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 			vhost_map_regex_entry map_entry;
 
 			map_entry.regex = g_regex_new(entryKeyStr->str, G_REGEX_RAW | G_REGEX_OPTIMIZE, 0, &err);
-			g_string_free(entryKeyStr, TRUE);
 
 			if (NULL == map_entry.regex) {
 				LI_FORCE_ASSERT(NULL != err);
 				vhost_map_regex_free(srv, mrd);
 				ERROR(srv, "vhost.map_regex: error compiling regex \"%s\": %s", entryKeyStr->str, err->message);
+				g_string_free(entryKeyStr, TRUE);
 				g_error_free(err);
 				return NULL;
 			}
 			LI_FORCE_ASSERT(NULL == err);
+			g_string_free(entryKeyStr, TRUE);
 
 			map_entry.action = li_value_extract(entryValue);
 
-- 
2.43.0


From 0edb6ebe0d8dc0df5a6f043521a8e234a957239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:26 +0000
Subject: [PATCH 62/86] fix: docroot: skip patterns that name something other
 than a directory

---
 src/main/plugin_core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 249df9d..5addc01 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -187,7 +187,10 @@ static liHandlerResult core_handle_docroot(liVRequest *vr, gpointer param, gpoin
 
 		/* check if path exists */
 		switch (li_stat_cache_get(vr, vr->physical.doc_root, &st, &err, NULL)) {
-		case LI_HANDLER_GO_ON: break;
+		case LI_HANDLER_GO_ON:
+			/* only directories can be a docroot */
+			if (!S_ISDIR(st.st_mode)) continue;
+			break;
 		case LI_HANDLER_WAIT_FOR_EVENT:
 			*context = GINT_TO_POINTER(i);
 			if (CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
-- 
2.43.0


From a888cbcc194334a953582643f89ab8b2bca3db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 63/86] fix: docroot, alias: ignore empty host labels, use all
 labels

---
 src/main/plugin_core.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 5addc01..fe0283a 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -122,8 +122,17 @@ static void core_docroot_nth_cb(GString *pattern_result, guint to, guint from, g
 	}
 
 	if (NULL == ctx->splits) {
-		ctx->splits = g_strsplit_set(ctx->hostname->str, ".", 31);
-		ctx->split_len = g_strv_length(ctx->splits);
+		gchar **part;
+		ctx->splits = g_strsplit_set(ctx->hostname->str, ".", -1);
+		/* ignore empty labels; they could combine to ".." path segments */
+		for (part = ctx->splits; NULL != *part; part++) {
+			if ('\0' == **part) {
+				g_free(*part);
+			} else {
+				ctx->splits[ctx->split_len++] = *part;
+			}
+		}
+		ctx->splits[ctx->split_len] = NULL;
 	}
 
 	if (0 == ctx->split_len) return;
-- 
2.43.0


From fd89f483067bc47fabb3f84d7f77aa3ff689a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:33 +0000
Subject: [PATCH 64/86] fix: alias: free host labels

---
 src/main/plugin_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index fe0283a..503caa5 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -335,6 +335,8 @@ static liHandlerResult core_handle_alias(liVRequest *vr, gpointer _param, gpoint
 				VR_DEBUG(vr, "alias physical path: %s", vr->physical.path->str);
 			}
 
+			g_strfreev(dsplit.splits);
+
 			return LI_HANDLER_GO_ON;
 		}
 	}
-- 
2.43.0


From 8228dca8105116f5a80ff5f721bd71d7b225e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:04 +0000
Subject: [PATCH 65/86] fix: honor keepalive.requests as documented

---
 src/main/connection.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 40b26eb..dc4e5fa 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -242,9 +242,6 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_event_stop(&con->keep_alive_data.watcher);
 
 		con->keep_alive_requests++;
-		/* disable keep alive if limit is reached */
-		if (con->keep_alive_requests == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number)
-			con->info.keep_alive = FALSE;
 
 		/* reopen stream for request body */
 		li_chunkqueue_reset(in);
@@ -427,6 +424,12 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* keep_alive_requests doesn't count the first request */
+			if (CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number > 0
+				&& (gint64) con->keep_alive_requests + 1 >= CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number) {
+				/* limit is reached */
+				con->info.keep_alive = FALSE;
+			}
 			li_response_send_headers(vr, raw_out, out, FALSE);
 		}
 
-- 
2.43.0


From 8391d9a44a5219b84f9b0e575666fb800cc93344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 66/86] fix: no io timeout for a client whose request is
 complete

---
 src/main/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index dc4e5fa..37555d0 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -367,6 +367,10 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 				in->is_closed = TRUE;
 			}
 		}
+		if (in->is_closed) {
+			/* not waiting for the client anymore */
+			li_connection_update_io_wait(con);
+		}
 		if (newbytes > 0 || in->is_closed) {
 			li_stream_notify(&con->in);
 		}
-- 
2.43.0


From d0d3972a463d69f2d55fa966797fc2c5cbf3d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 67/86] fix: io timeout for clients not reading an unfinished
 response

---
 src/main/connection.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 37555d0..9b7c207 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -459,6 +459,8 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			}
 		}
 		con->info.out_queue_length = raw_out->length;
+		/* if there is data left the client has to read it */
+		li_connection_update_io_wait(con);
 	}
 
 	li_stream_notify(stream);
@@ -468,6 +470,9 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 void li_connection_update_io_timeout(liConnection *con) {
 	liWorker *wrk = con->wrk;
 
+	/* the client might have read the last pending data */
+	li_connection_update_io_wait(con);
+
 	if (con->io_timeout_elem.queued && (con->io_timeout_elem.ts + 1.0) < li_cur_ts(wrk)) {
 		li_waitqueue_push(&wrk->io_timeout_queue, &con->io_timeout_elem);
 	}
@@ -493,8 +498,9 @@ void li_connection_update_io_wait(liConnection *con) {
 		want_timeout = TRUE;
 		break;
 	case LI_CON_STATE_HANDLE_MAINVR:
-		/* want timeout while we're still reading request body */
-		want_timeout = stopping || !con->in.out->is_closed;
+		/* want timeout while we're still reading request body or the client has to read parts of the response */
+		want_timeout = stopping || !con->in.out->is_closed || con->out.out->length > 0
+			|| (NULL != con->con_sock.raw_out && con->con_sock.raw_out->out->length > 0);
 		break;
 	case LI_CON_STATE_WRITE:
 		want_timeout = TRUE;
-- 
2.43.0


From b251fd8f86b46ba75aeaa7cab579c75084b5e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 68/86] fix: limit buffered response data from backends

---
 src/main/stream.c         | 3 ++-
 src/main/virtualrequest.c | 2 --
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/stream.c b/src/main/stream.c
index 95010ca..07c7758 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -195,7 +195,8 @@ void li_stream_attach(liStream *stream, liEventLoop *loop) {
 void li_stream_set_cqlimit(liStream *first, liStream *last, liCQLimit *limit) {
 	if (NULL != limit) li_cqlimit_acquire(limit);
 	if (NULL == first) {
-		while (NULL != last && NULL == last->out->limit) {
+		/* set limit where there is none yet; NULL removes them */
+		while (NULL != last && (NULL == limit || NULL == last->out->limit)) {
 			if (limit == last->out->limit) break;
 			li_chunkqueue_set_limit(last->out, limit);
 			if (NULL != last->cb) {
diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..112e1d1 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -414,8 +414,6 @@ void li_vrequest_indirect_connect(liVRequest *vr, liStream *backend_drain, liStr
 
 	vr->backend_source = backend_source;
 
-	li_chunkqueue_set_limit(backend_source->out, vr->coninfo->resp->out->limit);
-
 	li_vrequest_joblist_append(vr);
 }
 
-- 
2.43.0


From ca6a9ee6412a6a02eb7e8666fcf45ff35dde7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:46 +0000
Subject: [PATCH 69/86] fix: io.buffer_out 0 means unlimited as documented

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 503caa5..8574264 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1756,7 +1756,7 @@ static liAction* core_buffer_out(liServer *srv, liWorker *wrk, liPlugin* p, liVa
 
 	limit = val->data.number;
 
-	if (limit < 0) {
+	if (limit <= 0) {
 		limit = 0; /* no limit */
 	} else if (limit < (16*1024)) {
 		ERROR(srv, "buffer %"G_GINT64_FORMAT" is too low (need at least 16 kb)", limit);
-- 
2.43.0


From d0d37fb7ff2971c2c3e8e3a55c822aacf374067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 70/86] fix: TLS: don't encrypt more than fits in the output
 buffer

---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index ca3445c..9e67d73 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -405,6 +405,9 @@ static void do_gnutls_write(liGnuTLSFilter *f) {
 		goto out;
 	}
 
+	/* buffer for encrypted data is full: gets called again when there is space */
+	if (0 < cq->length && 0 == li_chunkqueue_limit_available(f->crypt_source.out)) goto out;
+
 #ifdef USE_CORK
 	if (0 != cq->length && cq->queue.length > 1) {
 		corked = TRUE;
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 24ec12d..ea22f80 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -417,6 +417,9 @@ static void do_ssl_write(liOpenSSLFilter *f) {
 		goto out;
 	}
 
+	/* buffer for encrypted data is full: gets called again when there is space */
+	if (0 < cq->length && 0 == li_chunkqueue_limit_available(f->crypt_source.out)) goto out;
+
 	do {
 		GError *err = NULL;
 		liChunkIter ci;
-- 
2.43.0


From 5ac322226fc74f3d190f53329410ff442368b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 71/86] fix: TLS: apply io.buffer_out to data not encrypted yet

---
 src/modules/mod_gnutls.c  | 2 ++
 src/modules/mod_openssl.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index 0facd75..d5dd813 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -374,6 +374,8 @@ static void handshake_cb(liGnuTLSFilter *f, gpointer data, liStream *plain_sourc
 	if (NULL != con) {
 		li_stream_connect(plain_source, con->con_sock.raw_in);
 		li_stream_connect(con->con_sock.raw_out, plain_drain);
+		/* the limit for outgoing (plain) data includes the data not encrypted yet */
+		li_chunkqueue_set_limit(plain_drain->out, con->con_sock.raw_out->out->limit);
 	} else {
 		li_stream_reset(plain_source);
 		li_stream_reset(plain_drain);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index 3d80004..de8ee9e 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -122,6 +122,8 @@ static void handshake_cb(liOpenSSLFilter *f, gpointer data, liStream *plain_sour
 	if (NULL != con) {
 		li_stream_connect(plain_source, con->con_sock.raw_in);
 		li_stream_connect(con->con_sock.raw_out, plain_drain);
+		/* the limit for outgoing (plain) data includes the data not encrypted yet */
+		li_chunkqueue_set_limit(plain_drain->out, con->con_sock.raw_out->out->limit);
 	} else {
 		li_stream_reset(plain_source);
 		li_stream_reset(plain_drain);
-- 
2.43.0


From 93c79a2c10cc7aec64b52203739e46b9b2bd3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 72/86] fix: io timeout for TLS clients not reading an
 unfinished response

---
 src/main/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 9b7c207..4ed035c 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -500,7 +500,7 @@ void li_connection_update_io_wait(liConnection *con) {
 	case LI_CON_STATE_HANDLE_MAINVR:
 		/* want timeout while we're still reading request body or the client has to read parts of the response */
 		want_timeout = stopping || !con->in.out->is_closed || con->out.out->length > 0
-			|| (NULL != con->con_sock.raw_out && con->con_sock.raw_out->out->length > 0);
+			|| (NULL != con->con_sock.raw_out && !li_streams_empty(con->con_sock.raw_out, NULL));
 		break;
 	case LI_CON_STATE_WRITE:
 		want_timeout = TRUE;
-- 
2.43.0


From f54ce208d46817e71fcefb9ad13254e8b8c4be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:49 +0000
Subject: [PATCH 73/86] fix: crash when an output filter fails as soon as it is
 connected

---
 src/main/virtualrequest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 112e1d1..62351e3 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -540,6 +540,8 @@ void li_vrequest_state_machine(liVRequest *vr) {
 			if (NULL != vr->direct_out) vr->direct_out->is_closed = TRUE; /* make sure this is closed for direct responses */
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
+				/* filters may fail as soon as they are connected, which resets the vrequest */
+				if (LI_VRS_WRITE_CONTENT != vr->state) return;
 				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
 			} else {
 				/* no filters */
-- 
2.43.0


From b728eee91ed07449216dee767d8bd0d1b076a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 74/86] fix: mod_deflate: broken responses must not end
 properly

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..fcb25d5 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -156,7 +156,8 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	int rc;
 
 	if (NULL == f->in) {
-		f->out->is_closed = TRUE;
+		/* didn't handle f->in->is_closed? abort forwarding */
+		if (!f->out->is_closed) li_stream_reset(&f->stream);
 		return LI_HANDLER_GO_ON;
 	}
 
-- 
2.43.0


From 9558d4e6469051d1f46300afcc957198fc1d28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:55 +0000
Subject: [PATCH 75/86] fix: mod_deflate: parse names and zero quality in
 Accept-Encoding

---
 src/modules/mod_deflate.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index fcb25d5..b2c8294 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -503,13 +503,37 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	return FALSE;
 }
 
+/* whether the parameters [p, end) of an accept-encoding entry contain "q=0" */
+static gboolean encoding_refused(const gchar *p, const gchar *end) {
+	while (p < end) {
+		p += strspn(p, "; \t");
+		if (('q' == p[0] || 'Q' == p[0]) && '=' == p[1] && '0' == p[2]) {
+			return !g_ascii_isdigit(p[2 + strspn(p + 2, "0.")]);
+		}
+		p += strcspn(p, ",;");
+	}
+
+	return FALSE;
+}
+
 static guint header_to_encoding_mask(const gchar *s) {
 	guint encoding_mask = 0, i;
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+	while ('\0' != *s) {
+		const gchar *name, *params;
+		gsize len;
+
+		name = s + strspn(s, ", \t");
+		len = strcspn(name, ",; \t");
+		params = name + len;
+		s = params + strcspn(params, ",");
+
+		if (encoding_refused(params, s)) continue;
+
+		for (i = 1; encoding_names[i]; i++) {
+			if (len == strlen(encoding_names[i]) && 0 == g_ascii_strncasecmp(name, encoding_names[i], len)) {
+				encoding_mask |= 1 << i;
+			}
 		}
 	}
 
-- 
2.43.0


From 8c0e3fc2cb9b0b63f71b060353ec8157b4267f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 76/86] fix: mod_deflate: flush everything when the input is
 used up

---
 src/modules/mod_deflate.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index b2c8294..5127f13 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -279,10 +279,18 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	}
 
 	if (l > 0 && 0 == f->in->length && !f->in->is_closed) { /* flush z_stream */
-		rc = deflate(z, Z_SYNC_FLUSH);
-		if (rc != Z_OK && rc != Z_STREAM_END) {
-			if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
+		for (;;) {
+			rc = deflate(z, Z_SYNC_FLUSH);
+			if (rc != Z_OK && rc != Z_STREAM_END && rc != Z_BUF_ERROR) {
+				if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
+				return LI_HANDLER_ERROR;
+			}
+			if (0 != z->avail_out) break;
+
+			/* the flush is not complete until there is space left in the buffer */
+			li_chunkqueue_append_mem(f->out, ctx->buf->data, ctx->buf->len);
+			z->next_out = ctx->buf->data;
+			z->avail_out = ctx->buf->len;
 		}
 	}
 
-- 
2.43.0


From f5896caefe86255b7b171968e3c58ca4d2adea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:00 +0000
Subject: [PATCH 77/86] fix: mod_deflate: minimum for output-buffer

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 5127f13..7c4ad36 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -767,7 +767,8 @@ static liAction* deflate_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 				goto option_failed;
 			}
 			have_outputbuffer_parameter = TRUE;
-			conf->output_buffer = entryValue->data.number;
+			/* the gzip header and the flush markers of zlib need some space */
+			conf->output_buffer = MAX(16, entryValue->data.number);
 		} else if (g_string_equal(entryKeyStr, &don_compression_level)) {
 			if (LI_VALUE_NUMBER != li_value_type(entryValue) || entryValue->data.number <= 0 || entryValue->data.number > 9) {
 				ERROR(srv, "deflate option '%s' expects an integer between 1 and 9 as parameter", entryKeyStr->str);
-- 
2.43.0


From 0e2d0c4ac7325cdddaeba7039652d1d2ae036c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 78/86] fix: mod_cache_disk_etag: use host and query for the
 cache file name

---
 src/modules/mod_cache_disk_etag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_cache_disk_etag.c b/src/modules/mod_cache_disk_etag.c
index 7d29815..6efb05c 100644
--- a/src/modules/mod_cache_disk_etag.c
+++ b/src/modules/mod_cache_disk_etag.c
@@ -206,12 +206,16 @@ forward:
 
 static GString* createFileName(liVRequest *vr, GString *path, liHttpHeader *etagheader) {
 	GString *file = g_string_sized_new(255);
-	gchar* etag_base64 = g_base64_encode((guchar*) LI_HEADER_VALUE_LEN(etagheader));
+	/* an etag is only unique for one resource: other hosts and other queries may use the same */
+	GChecksum *hash = g_checksum_new(G_CHECKSUM_SHA1);
+	g_checksum_update(hash, (guchar*) vr->request.uri.host->str, vr->request.uri.host->len + 1);
+	g_checksum_update(hash, (guchar*) vr->request.uri.query->str, vr->request.uri.query->len + 1);
+	g_checksum_update(hash, (guchar*) LI_HEADER_VALUE_LEN(etagheader));
 	li_g_string_append_len(file, GSTR_LEN(path));
 	li_g_string_append_len(file, GSTR_LEN(vr->request.uri.path));
 	li_g_string_append_len(file, CONST_STR_LEN("-"));
-	g_string_append(file, etag_base64);
-	g_free(etag_base64);
+	g_string_append(file, g_checksum_get_string(hash));
+	g_checksum_free(hash);
 	return file;
 }
 
-- 
2.43.0


From 696b7048f76fa217137e6c610f7f272d46905723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 79/86] fix: throttle pools stopped for good when the
 millisecond counter wrapped or the clock was set back

---
 src/main/throttle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..e196aef 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -115,14 +115,15 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	/* the timestamps wrap around and the clock can be set back, so they have no useful order */
+	if (HEDLEY_UNLIKELY(wpool->last_rearm != last)) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
 		gint magazine = g_atomic_int_get(&wpool->magazine);
 		gint supply = magazine / connections;
 		g_atomic_int_add(&wpool->magazine, -supply * connections);
-		wpool->last_rearm = now;
+		wpool->last_rearm = last;
 
 		throttle_debug("throttle_pool_rearm: distribute supply %i on each of %i connections\n",
 			supply, connections);
-- 
2.43.0


From d798b220c8a58285ff9b0b6d05ca7d7fac0bea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 80/86] fix: magazines of idle workers in a throttle pool piled
 up without limit

---
 src/main/throttle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e196aef..a887f85 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -94,6 +94,9 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 		if (0 == wrk_connections[i]) continue;
 		wrk_fill = (fill * wrk_connections[i]) / connections;
 		throttle_debug("rearm worker %u: refill %u\n", i, wrk_fill);
+		/* only the worker itself takes from its magazine: what it doesn't need must not pile up */
+		wrk_fill = MIN(wrk_fill, (gint) pool->burst - g_atomic_int_get(&pool->workers[i].magazine));
+		if (wrk_fill <= 0) continue;
 		g_atomic_int_add(&pool->workers[i].magazine, wrk_fill);
 	}
 }
-- 
2.43.0


From 6290ffb2c4d301adaafb3cd6c4304bd08bf7a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 81/86] fix: angel: a restart after an instance failed to start
 never completed

---
 src/angel/angel_plugin_core.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 5ca7254..1f25cf7 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -1029,6 +1029,15 @@ static void core_handle_sig_hup(liEventBase *watcher, int events) {
 
 	INFO(oldi->srv, "%s", "Received SIGHUP: graceful instance restart");
 	newi = li_server_new_instance(oldi->srv, config->instconf);
+
+	if (LI_INSTANCE_FINISHED == oldi->s_cur) {
+		/* the old instance is gone (failed to start): nothing to wait for, so don't try to replace it */
+		config->inst = newi;
+		li_instance_set_state(newi, LI_INSTANCE_RUNNING);
+		li_instance_release(oldi);
+		return;
+	}
+
 	li_instance_replace(oldi, newi);
 	li_instance_release(newi);
 }
-- 
2.43.0


From 63d7be417371e48b03feb8fd917a33a20de43ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 82/86] fix: angel: stopping during a graceful restart left the
 replacing instance running

---
 include/lighttpd/angel_server.h |  1 +
 src/angel/angel_plugin_core.c   | 16 ++++++++++++++--
 src/angel/angel_server.c        |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lighttpd/angel_server.h b/include/lighttpd/angel_server.h
index cf2f9ad..c874f04 100644
--- a/include/lighttpd/angel_server.h
+++ b/include/lighttpd/angel_server.h
@@ -73,6 +73,7 @@ LI_API void li_server_stop(liServer *srv);
 
 LI_API liInstance* li_server_new_instance(liServer *srv, liInstanceConf *ic);
 LI_API gboolean li_instance_replace(liInstance *oldi, liInstance *newi);
+LI_API void li_instance_unset_replace(liInstance *oldi, liInstance *newi);
 LI_API void li_instance_set_state(liInstance *i, liInstanceState s);
 LI_API void li_instance_state_reached(liInstance *i, liInstanceState s);
 
diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 1f25cf7..b3fdcfe 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -968,9 +968,21 @@ static void core_stop(liServer *srv, liPlugin *p) {
 	UNUSED(srv);
 
 	if (config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
-		li_instance_release(config->inst);
+		liInstance *inst = config->inst, *newi = inst->replace_by;
+
+		/* reset first: core_instance_replaced must not activate the replacement */
 		config->inst = NULL;
+
+		if (newi) {
+			/* stop the replacement too */
+			li_instance_acquire(newi);
+			li_instance_unset_replace(inst, newi);
+			li_instance_set_state(newi, LI_INSTANCE_FINISHED);
+			li_instance_release(newi);
+		}
+
+		li_instance_set_state(inst, LI_INSTANCE_FINISHED);
+		li_instance_release(inst);
 	}
 }
 
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..39041f3 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -218,7 +218,7 @@ gboolean li_instance_replace(liInstance *oldi, liInstance *newi) {
 	return TRUE;
 }
 
-static void li_instance_unset_replace(liInstance *oldi, liInstance *newi) {
+void li_instance_unset_replace(liInstance *oldi, liInstance *newi) {
 	g_assert(newi == oldi->replace_by); oldi->replace_by = NULL;
 	g_assert(oldi == newi->replace); newi->replace = NULL;
 
-- 
2.43.0


From 7c505b4a2d820caae61419d4d9e5bac0b64f36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 83/86] fix: gnutls: don't run the client hello filter again
 when it already forwards

---
 src/modules/ssl_client_hello_parser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 910b03d..c91519b 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -74,6 +74,9 @@ INLINE void li_ssl_client_hello_stream_ready(liStream *stream) {
 	liSSLClientHelloParserStream *pstream = LI_CONTAINER_OF(stream, liSSLClientHelloParserStream, stream);
 	LI_FORCE_ASSERT(_li_ssl_client_hello_stream_cb == stream->cb);
 
+	/* already forwarding: nothing was held back (and the streams behind might be just about to shut down) */
+	if (pstream->parser.forward) return;
+
 	pstream->parser.finished = pstream->parser.forward = TRUE;
 	li_stream_again(stream);
 }
-- 
2.43.0


From dcf53539e22c8bf7db47246778811608e892d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 84/86] fix: TLS filters: continue reading after the 64kb limit
 of one run

---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index 9e67d73..fba62b0 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -368,6 +368,9 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there may be more data to decrypt (without new data from the network) */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index ea22f80..a48ad7e 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -388,6 +388,9 @@ static void do_ssl_read(liOpenSSLFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there may be more data to decrypt (without new data from the network) */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
-- 
2.43.0


From b4e574916e92fcd5773ddf8d98560423b143a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 85/86] fix: TLS filters: tell the connection when the response
 ends without further data

---
 src/modules/gnutls_filter.c  | 1 +
 src/modules/openssl_filter.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index fba62b0..2eb877c 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -584,6 +584,7 @@ static void stream_plain_drain_cb(liStream *stream, liStreamEvent event) {
 			stream->out->is_closed = stream->out->is_closed || stream->source->out->is_closed;
 		}
 		do_gnutls_write(f);
+		li_stream_notify_later(&f->crypt_source); /* the end alone doesn't produce data, but the connection has to see it */
 		if (stream->out->is_closed) {
 			li_stream_disconnect(stream);
 			stream->out->is_closed = FALSE;
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index a48ad7e..8072071 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -597,6 +597,7 @@ static void stream_plain_drain_cb(liStream *stream, liStreamEvent event) {
 			stream->out->is_closed = stream->out->is_closed || stream->source->out->is_closed;
 		}
 		do_ssl_write(f);
+		li_stream_notify_later(&f->crypt_source); /* the end alone doesn't produce data, but the connection has to see it */
 		if (stream->out->is_closed) {
 			li_stream_disconnect(stream);
 		}
-- 
2.43.0


From 73eba2a60d12efe56781362f12b23ac3e3944a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 86/86] fix: TLS: send close_notify when the connection shuts
 down before the filter saw the end

---
 src/modules/gnutls_filter.c  | 12 ++++++++++++
 src/modules/gnutls_filter.h  |  4 ++++
 src/modules/mod_gnutls.c     |  7 ++++++-
 src/modules/mod_openssl.c    |  7 ++++++-
 src/modules/openssl_filter.c | 12 ++++++++++++
 src/modules/openssl_filter.h |  4 ++++
 6 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index 2eb877c..317e55a 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -680,6 +680,18 @@ liGnuTLSFilter* li_gnutls_filter_new(
 	return f;
 }
 
+void li_gnutls_filter_shutdown(liGnuTLSFilter *f) {
+	f_acquire(f);
+	if (NULL != f->session && !f->closing && !f->aborted && f->initial_handshaked_finished) {
+		if (NULL != f->plain_drain.source) {
+			li_chunkqueue_steal_all(f->plain_drain.out, f->plain_drain.source->out);
+		}
+		f->plain_drain.out->is_closed = TRUE;
+		do_gnutls_write(f);
+	}
+	f_release(f);
+}
+
 void li_gnutls_filter_free(liGnuTLSFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/gnutls_filter.h b/src/modules/gnutls_filter.h
index 8d8c8c9..58c04fa 100644
--- a/src/modules/gnutls_filter.h
+++ b/src/modules/gnutls_filter.h
@@ -24,6 +24,10 @@ LI_API liGnuTLSFilter* li_gnutls_filter_new(
 	gnutls_session_t session, liStream *crypt_source, liStream *crypt_drain);
 
 /* doesn't call closed_cb; but you can call this from closed_cb */
+/* all data was passed to the filter: encrypt what is left and send "close notify".
+ * calls closed_cb when the shutdown is complete (i.e. possibly before it returns)
+ */
+LI_API void li_gnutls_filter_shutdown(liGnuTLSFilter *f);
 LI_API void li_gnutls_filter_free(liGnuTLSFilter *f);
 
 #endif
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index d5dd813..56c0efe 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -472,11 +472,16 @@ static const liGnuTLSFilterCallbacks filter_callbacks = {
 
 static void gnutls_tcp_finished(liConnection *con, gboolean aborted) {
 	mod_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
+	if (!aborted && NULL != conctx && NULL != conctx->tls_filter) {
+		/* closing conctx drops the filter; the notify from the connection about the end might still be pending */
+		li_gnutls_filter_shutdown(conctx->tls_filter);
+		conctx = con->con_sock.data;
+	}
+
 	if (NULL != conctx) {
 		LI_FORCE_ASSERT(con == conctx->con);
 		close_cb(conctx->tls_filter, conctx);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index de8ee9e..7fe93ea 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -163,11 +163,16 @@ static const liOpenSSLFilterCallbacks filter_callbacks = {
 
 static void openssl_tcp_finished(liConnection *con, gboolean aborted) {
 	openssl_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
+	if (!aborted && NULL != conctx && NULL != conctx->ssl_filter) {
+		/* closing conctx drops the filter; the notify from the connection about the end might still be pending */
+		li_openssl_filter_shutdown(conctx->ssl_filter);
+		conctx = con->con_sock.data;
+	}
+
 	if (NULL != conctx) {
 		LI_FORCE_ASSERT(con == conctx->con);
 		close_cb(conctx->ssl_filter, conctx);
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 8072071..80bbb04 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -700,6 +700,18 @@ liOpenSSLFilter* li_openssl_filter_new(
 	return f;
 }
 
+void li_openssl_filter_shutdown(liOpenSSLFilter *f) {
+	f_acquire(f);
+	if (NULL != f->ssl && !f->closing && !f->aborted && f->initial_handshaked_finished) {
+		if (NULL != f->plain_drain.source) {
+			li_chunkqueue_steal_all(f->plain_drain.out, f->plain_drain.source->out);
+		}
+		f->plain_drain.out->is_closed = TRUE;
+		do_ssl_write(f);
+	}
+	f_release(f);
+}
+
 void li_openssl_filter_free(liOpenSSLFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/openssl_filter.h b/src/modules/openssl_filter.h
index 3878b20..634f58e 100644
--- a/src/modules/openssl_filter.h
+++ b/src/modules/openssl_filter.h
@@ -22,6 +22,10 @@ LI_API liOpenSSLFilter* li_openssl_filter_new(
 	SSL_CTX *ssl_ctx, liStream *crypt_source, liStream *crypt_drain);
 
 /* doesn't call closed_cb; but you can call this from closed_cb */
+/* all data was passed to the filter: encrypt what is left and send "close notify".
+ * calls closed_cb when the shutdown is complete (i.e. possibly before it returns)
+ */
+LI_API void li_openssl_filter_shutdown(liOpenSSLFilter *f);
 LI_API void li_openssl_filter_free(liOpenSSLFilter *f);
 
 LI_API SSL* li_openssl_filter_ssl(liOpenSSLFilter *f);
-- 
2.43.0

