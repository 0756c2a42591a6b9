From bedb0037d111ba118398a0a529dbeb23affc1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 001/120] fix: check the token size limit before storing each
 byte

The limit was only tested when more data was available in the same read, so a
long token delivered in one byte segments was written past the token buffer.
---
 src/onion/request_parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..6321678 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,17 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
-      token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
+      token->str[token->pos] = '\0';
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (c != '\r')              // Just ignore it here
+      token->str[token->pos++] = c;
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From dba610f3423d8030a6d2fe0a052d99812728524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 002/120] fix: keep the continuation of a folded header that
 ends in CRLF

The CR was replaced by a NUL but still counted, so the continuation was stored
after the NUL and lost. An empty line also read the byte before the buffer.
---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6321678..039d2fd 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -213,10 +213,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From 9f6d605a15a1bb877d20725ec8949458e6c5d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 003/120] fix: do not write past the token buffer on very long
 folded headers

---
 src/onion/request_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 039d2fd..4015445 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -734,8 +734,10 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
       onion_token *token = req->parser_data;
       if (peek == '\n')
         return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      if (token->pos < sizeof(token->str) - 1)
+        token->str[token->pos++] = ' ';
+      if (token->pos < sizeof(token->str) - 1)
+        token->str[token->pos++] = peek;
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From 2ccc64d8f0780c8826edec8e460bfd2ed8f12ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 004/120] fix: do not loop forever on a NUL byte after a header
 line

---
 src/onion/request_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 4015445..0ce9a4f 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -748,12 +748,12 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
 static onion_connection_status
 parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
-  char peek = token_peek_next_char(data);
-  ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
+  char peek = token_peek_next_char(data);
+  ONION_DEBUG0("Multiline if space, peek %d", peek);
   if (peek == ' ' || peek == '\t') {
     req->parser = parse_headers_VALUE_skip_leading_whitespace;
     return parse_headers_VALUE_skip_leading_whitespace(req, data);
-- 
2.43.0


From f87f986703dba9413948ac1bacd2d29d382fc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 005/120] fix: remember a CR read in a previous segment when
 looking for a new line

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 0ce9a4f..9d907b2 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -299,7 +299,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From 0b65964d563e1e8225d428261728ae3d63d1083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:49 +0000
Subject: [PATCH 006/120] fix: keep multipart text fields that contain new
 lines intact

When something that looked like the boundary was not, unrelated input was
copied instead of what had been skipped, and the character that ended the match
was not tried as the start of the boundary. New lines at the end of the value
were dropped too.
---
 src/onion/request_parser.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 9d907b2..59c25c2 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -498,19 +498,17 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
-        multipart->pos = 0;
+        multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
-        }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
 
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
@@ -522,15 +520,18 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
       }
     } else {                    // No boundary
       if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
+        int r = multipart->pos - multipart->startpos;
+        if (multipart->post_total_size <= r) {
           ONION_ERROR("No space left for this post.");
           return OCS_INTERNAL_ERROR;
         }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
       }
       if (multipart->post_total_size <= 0) {
         ONION_ERROR("No space left for this post.");
-- 
2.43.0


From fe3022d0dbb4678841826798cb74fdda02bb3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:25 +0000
Subject: [PATCH 007/120] fix: ignore empty lines before a request line

A multipart body normally ends with CRLF after the last delimiter. When that
CRLF came in a later segment it was taken as the next request, whose unknown
method closed the keep alive connection.
---
 src/onion/request_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 59c25c2..f661140 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -879,6 +879,10 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+  // Ignore empty lines before the request, for example the one that follows a multipart body.
+  while (token->pos == 0 && data->pos < data->size
+         && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+    data->pos++;
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From 9d645969cdecff6e3c0e15c7087bf043094fb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:09 +0000
Subject: [PATCH 008/120] fix: do not loop forever when a HEAD response does
 not fit the buffer

The content was skipped but stayed in the buffer, so a write bigger than the
buffer never found room for more.
---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..c9be6f2 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -416,8 +416,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   onion_request *req = res->request;
-- 
2.43.0


From a623b96f877a1207548ba8407cd386217f876489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 009/120] fix: send chunk marks completely, and close after a
 failed write

Chunk sizes and ends were sent with an unchecked write, so a short write
corrupted the stream. After a failed write later parts of the response, and
even other responses, were still sent on the same connection.
---
 src/onion/response.c | 62 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index c9be6f2..6f0eee7 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -147,6 +147,9 @@ onion_response *onion_response_new(onion_request * req) {
   return res;
 }
 
+static int onion_response_send(onion_response * res, const char *data,
+                               size_t length);
+
 /**
  * @short Frees the memory consumed by this object
  * @memberof onion_response_t
@@ -169,7 +172,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_request *req = res->request;
 
   if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+    onion_response_send(res, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -330,6 +333,8 @@ int onion_response_write_headers(onion_response * res) {
   }
   if (chunked) {
     onion_response_flush(res);
+    if (res->flags & OR_SKIP_CONTENT)   // Could not send the headers.
+      return OR_SKIP_CONTENT;
     res->flags |= OR_CHUNKED;
   }
 
@@ -390,6 +395,26 @@ ssize_t onion_response_write(onion_response * res, const char *data,
   return w;
 }
 
+/// Sends all that data, in as many writes as necessary. Returns 0 if ok.
+static int onion_response_send(onion_response * res, const char *data,
+                               size_t length) {
+  onion_request *req = res->request;
+  while (length > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0) {
+      // What was sent is incomplete: nothing else can be sent here, nor other responses.
+      res->buffer_pos = 0;
+      res->flags |= OR_SKIP_CONTENT;
+      res->flags &= ~OR_CHUNKED;
+      req->flags |= OR_NO_KEEP_ALIVE;
+      return OCS_CLOSE_CONNECTION;
+    }
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes all buffered output waiting for sending.
  * @ingroup response
@@ -422,41 +447,26 @@ int onion_response_flush(onion_response * res) {
   }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-  onion_request *req = res->request;
-  ssize_t(*write) (onion_request *, const char *data, size_t len);
-  write = req->connection.listen_point->write;
-
-  ssize_t w;
-  off_t pos = 0;
   //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
+  unsigned int length = res->buffer_pos;
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
-    snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    snprintf(tmp, sizeof(tmp), "%X\r\n", length);
+    if (onion_response_send(res, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
-        (unsigned int)res->buffer_pos, strerror(errno));
+        length, strerror(errno));
       
       return OCS_CLOSE_CONNECTION;
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
   }
   int savederrno = errno;
   errno = 0;
-  while ((w =
-          write(req, &res->buffer[pos], res->buffer_pos)) != res->buffer_pos) {
-    if (w <= 0 || res->buffer_pos < 0) {
-      ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
-                  res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
-      errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
-    }
-    pos += w;
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-    res->buffer_pos -= w;
-  }
-  if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
+  if (onion_response_send(res, res->buffer, length) < 0
+      || (res->flags & OR_CHUNKED && onion_response_send(res, "\r\n", 2) < 0)) {
+    ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection.",
+                length, strerror(errno));
+    errno = savederrno;
+    return OCS_CLOSE_CONNECTION;
   }
   res->buffer_pos = 0;
   errno = savederrno;
-- 
2.43.0


From 03c2212463e0eb8c6734973dac50fcaf2b512654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:51 +0000
Subject: [PATCH 010/120] fix: close the connection when the response announced
 it

A HEAD response to an HTTP/1.0 keep alive client said Connection: Close but the
connection was kept open.
---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 6f0eee7..1fe45d3 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -308,8 +308,10 @@ int onion_response_write_headers(onion_response * res) {
   }
 
   if (!(res->flags & OR_LENGTH_SET) && !chunked
-      && !(res->flags & OR_CONNECTION_UPGRADE))
+      && !(res->flags & OR_CONNECTION_UPGRADE)) {
     onion_response_write(res, CONNECTION_CLOSE, sizeof(CONNECTION_CLOSE) - 1);
+    res->request->flags |= OR_NO_KEEP_ALIVE;
+  }
 
   if (res->flags & OR_CONNECTION_UPGRADE)
     onion_response_write(res, CONNECTION_UPGRADE,
-- 
2.43.0


From 04db8f81b238a11c5c93690c952dce8c42a631dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:17 +0000
Subject: [PATCH 011/120] fix: do not lose data of a PUT when the disk accepts
 only part of it

---
 src/onion/request_parser.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f661140..7f03e9c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -362,14 +362,18 @@ static onion_connection_status parse_PUT(onion_request * req,
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
   int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
-    ONION_ERROR("Could not write all data to temporal file.");
-    return OCS_INTERNAL_ERROR;
+  int written = 0;
+  while (written < length) {
+    ssize_t w = write(*fd, &data->data[data->pos + written], length - written);
+    if (w <= 0) {
+      // cleanup
+      close(*fd);
+      onion_low_free(token->extra);
+      token->extra = NULL;
+      ONION_ERROR("Could not write all data to temporal file.");
+      return OCS_INTERNAL_ERROR;
+    }
+    written += w;
   }
   data->pos += length;
   token->pos += length;
-- 
2.43.0


From 068a1048470826a45a6e5d65c25e2034f3758ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:55 +0000
Subject: [PATCH 012/120] fix: close the file of an upload that does not finish

When the connection was closed in the middle of a PUT or of a multipart file,
or the files were too big, the descriptor of the temporal file leaked.
---
 src/onion/request_parser.c | 44 +++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 7f03e9c..00a733e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -61,6 +61,7 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+  int fd;                       // File where the data being read is stored, or -1.
 } onion_token;
 
 /// @private
@@ -97,6 +98,13 @@ static onion_connection_status prepare_POST(onion_request * req);
 static onion_connection_status prepare_CONTENT_LENGTH(onion_request * req);
 static onion_connection_status prepare_PUT(onion_request * req);
 
+/// Closes the file where data was being stored, if any.
+static void token_close_fd(onion_token * token) {
+  if (token->fd >= 0)
+    close(token->fd);
+  token->fd = -1;
+}
+
 /// Reads a string until a non-string char. Returns an onion_token
 int token_read_STRING(onion_token * token, onion_buffer * data) {
   if (data->pos >= data->size)
@@ -361,15 +369,13 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
   int written = 0;
   while (written < length) {
-    ssize_t w = write(*fd, &data->data[data->pos + written], length - written);
+    ssize_t w =
+        write(token->fd, &data->data[data->pos + written], length - written);
     if (w <= 0) {
       // cleanup
-      close(*fd);
-      onion_low_free(token->extra);
-      token->extra = NULL;
+      token_close_fd(token);
       ONION_ERROR("Could not write all data to temporal file.");
       return OCS_INTERNAL_ERROR;
     }
@@ -384,9 +390,7 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    token_close_fd(token);
     return OCS_REQUEST_READY;
   }
 
@@ -424,11 +428,11 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        token_close_fd(token);
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -446,7 +450,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -455,7 +459,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -469,7 +473,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
+          token_close_fd(token);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -482,7 +486,7 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
+    token_close_fd(token);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -649,7 +653,7 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
 
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
+      token->fd = multipart->fd = mkstemp(filename);
       if (multipart->fd < 0)
         ONION_ERROR("Could not create temporal file at %s.", filename);
       if (!req->FILES)
@@ -922,7 +926,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1168,11 +1174,8 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
   assert(token->extra == NULL);
-  token->extra = (char *)pfd;
+  token->fd = fd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1186,6 +1189,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 void onion_request_parser_data_free(void *t) {
   ONION_DEBUG0("Free parser data");
   onion_token *token = t;
+  token_close_fd(token);
   if (token->extra) {
     onion_low_free(token->extra);
     token->extra = NULL;
-- 
2.43.0


From fc6316fef5435c65cfab2f7644900573cb5df6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:55 +0000
Subject: [PATCH 013/120] fix: fail the upload when its temporary file can not
 be created

---
 src/onion/request_parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 00a733e..1c09246 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -654,8 +654,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
       token->fd = multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      if (multipart->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -1153,8 +1155,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
-- 
2.43.0


From 0b81b35e0060f52e1e22853ad8dc29f388a1da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 014/120] fix: do not lose connection timeouts set in the same
 second as another one

---
 src/onion/poller.c | 59 +++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..864d131 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -239,16 +239,15 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
 static int onion_poller_timer(void *p_);
 
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
-    // Recalculate with proper mutexes.
+  // With the mutex, or a concurrent recalculation that did not see this limit
+  // could set the timer for later.
+  pthread_mutex_lock(&p->mutex);
+  if (timelimit < p->current_timeout_limit)
     onion_poller_timer(p);
-  }
+  pthread_mutex_unlock(&p->mutex);
 }
 
 static int onion_poller_timer(void *p_) {
@@ -260,46 +259,30 @@ static int onion_poller_timer(void *p_) {
   //if (read(p->timerfd, &count, sizeof(count))>0){ // Triggered.. not really interested
   //}
 
+  pthread_mutex_lock(&p->mutex);
   time_t ctime = onion_time();
   time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  onion_poller_slot *next = p->head;
+  while (next) {
+    onion_poller_slot *cur = next;
+    next = next->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = INT_MAX;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
 
+  p->current_timeout_limit = next_timeout;
   //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
   // rearm
-  struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
-  timerfd_settime(p->timerfd, 0, &next, NULL);
+  struct itimerspec its = { {0, 0}, {next_timeout - ctime, 0} };
+  timerfd_settime(p->timerfd, 0, &its, NULL);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
-- 
2.43.0


From 90fc540b4cefabe0744265326f346b9e67f92a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:45 +0000
Subject: [PATCH 015/120] fix: a negative timeout disables the connection
 timeout

---
 src/onion/poller.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 864d131..3a8c9f4 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -215,6 +215,11 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @param timeout Time in milliseconds that this file can be waiting.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
+  if (timeout < 0) {            // Wait forever
+    el->timeout = -1;
+    el->timeout_limit = INT_MAX;
+    return;
+  }
   el->timeout = timeout / 1000; // I dont have that resolution.
   el->timeout_limit = onion_time() + el->timeout;
   ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
-- 
2.43.0


From 42a21bb3ceabdb8cc0168f5f51b8afd5149910ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:49 +0000
Subject: [PATCH 016/120] fix: serve again when listening after a stop

---
 src/onion/onion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..bab2d9e 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -471,6 +471,11 @@ int onion_listen(onion * o) {
     return 1;
   }
 
+  // Nobody is polling yet; this makes the poller forget any previous stop, or
+  // listening again would finish just after starting.
+  if (o->poller)
+    onion_poller_stop(o->poller);
+
   o->flags |= O_LISTENING;
 
   if (o->flags & O_ONE) {
-- 
2.43.0


From 49d01f427f3ebcd3489415dab68c7679a50ebb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:17 +0000
Subject: [PATCH 017/120] fix: take listen sockets out of the poller before
 closing them

---
 src/onion/onion.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index bab2d9e..c44e40a 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -575,6 +575,9 @@ void onion_listen_stop(onion * server) {
   /// Stop listening
   onion_listen_point **lp = server->listen_points;
   while (*lp) {
+    // Out of the poller before closing, as the file descriptor may be reused.
+    if (server->poller && !(server->flags & O_ONE) && (*lp)->listenfd >= 0)
+      onion_poller_remove(server->poller, (*lp)->listenfd);
     onion_listen_point_listen_stop(*lp);
     lp++;
   }
-- 
2.43.0


From 63ef7de9b01ce7b9e46b8da8da3f0bdb45b3a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:17 +0000
Subject: [PATCH 018/120] fix: join only the threads that were created, and
 free their list

---
 src/onion/onion.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index c44e40a..91f68f4 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -518,18 +518,25 @@ int onion_listen(onion * o) {
     if (o->flags & O_THREADED) {
       o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
       int i;
+      int nthreads = 0;         // Only those really created can be joined.
       for (i = 0; i < o->nthreads - 1; i++) {
-        onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+        if (onion_low_pthread_create
+            (&o->threads[nthreads], NULL, onion_poller_poll_start,
+             o->poller) == 0)
+          nthreads++;
+        else
+          ONION_ERROR("Could not create listen thread %d", i);
       }
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-- 
2.43.0


From f7cecd4804f7bd1ca3166e52004f839a067c0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:34 +0000
Subject: [PATCH 019/120] fix: listen points that can not listen do not use
 file descriptor 0

---
 src/onion/https.c        | 2 ++
 src/onion/listen_point.c | 7 +++++--
 src/onion/onion.c        | 4 ++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..7db57c6 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -167,6 +167,8 @@ onion_listen_point *onion_https_new() {
  */
 static void onion_https_listen_stop(onion_listen_point * op) {
   ONION_DEBUG("Close HTTPS %s:%s", op->hostname, op->port);
+  if (op->listenfd < 0)         // Not listening
+    return;
   shutdown(op->listenfd, SHUT_RDWR);
   close(op->listenfd);
   op->listenfd = -1;
diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..045a5eb 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;           // Not listening yet, 0 is a valid file descriptor.
   return ret;
 }
 
@@ -198,7 +199,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;       // getaddrinfo may not set errno
   }
 
   int optval = 1;
@@ -229,8 +230,10 @@ int onion_listen_point_listen(onion_listen_point * op) {
     close(sockfd);
   }
   if (rp == NULL) {
+    int err = errno ? errno : EADDRNOTAVAIL;
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return err;
   }
 #ifdef __DEBUG__
   char address[64];
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 91f68f4..9ca4ac7 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -503,6 +503,10 @@ int onion_listen(onion * o) {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
       onion_listen_point *p = *listen_points;
+      if (p->listenfd < 0) {    // Could not listen here, others could
+        listen_points++;
+        continue;
+      }
       ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
       onion_poller_slot *slot =
           onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
-- 
2.43.0


From b38341f3e3559ffe75960011b2207546ecd101a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:27 +0000
Subject: [PATCH 020/120] fix: stopping a server never waits for itself nor
 holding its mutex

A detached server could deadlock when stopped from a handler, from a signal
that interrupted one of its threads, or while a handler used client data; and
could not detach again after it.
---
 src/onion/onion.c | 128 ++++++++++++++++++++++++++++++++--------------
 src/onion/types.h |   1 +
 2 files changed, 90 insertions(+), 39 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 9ca4ac7..7a45c70 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -242,7 +242,12 @@ onion *onion_new(int flags) {
   o->nthreads = 8;
   if (o->flags & O_THREADED)
     o->flags |= O_THREADS_ENABLED;
-  pthread_mutex_init(&o->mutex, NULL);
+  // Recursive, as the signal handler that stops listening may interrupt a thread that has it
+  pthread_mutexattr_t attr;
+  pthread_mutexattr_init(&attr);
+  pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+  pthread_mutex_init(&o->mutex, &attr);
+  pthread_mutexattr_destroy(&attr);
 #endif
   if (!(o->flags & O_NO_SIGTERM)) {
     signal(SIGINT, shutdown_server);
@@ -261,6 +266,12 @@ void onion_free(onion * onion) {
 
   if (onion->flags & O_LISTENING)
     onion_listen_stop(onion);
+#ifdef HAVE_PTHREADS
+  if (onion->flags & O_DETACHED) {      // It stopped by itself
+    onion_low_pthread_join(onion->listen_thread, NULL);
+    onion->flags &= ~O_DETACHED;
+  }
+#endif
 
   if (onion->poller)
     onion_poller_free(onion->poller);
@@ -343,11 +354,13 @@ void *onion_client_data(onion * server) {
 
 // This marks if called more than once. but has to be cleaned after it worked,
 // for using onion_listen several times in the same program
+static void onion_listen_ask_stop(onion * server);
 static bool shutdown_server_first_call = true;
 static void shutdown_server(int _) {
   if (shutdown_server_first_call) {
+    shutdown_server_first_call = false; // Before stop; set again when it finishes
     if (last_onion) {
-      onion_listen_stop(last_onion);
+      onion_listen_ask_stop(last_onion);        // Can not wait here, may have interrupted a thread needed to finish
       ONION_INFO("Exiting onion listening (SIG%s)",
                  _ == SIGTERM ? "TERM" : "INT");
     }
@@ -355,10 +368,10 @@ static void shutdown_server(int _) {
     ONION_ERROR("Aborting as onion does not stop listening.");
     abort();
   }
-  shutdown_server_first_call = false;
 }
 
 #ifdef HAVE_PTHREADS
+static int onion_listen_run(onion * o);
 static pthread_mutex_t count_mtx;
 static long listen_counter;
 static long poller_counter;
@@ -383,7 +396,7 @@ static void *onion_listen_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_listen(o);
+  onion_listen_run(o);
   return NULL;
 }
 
@@ -441,17 +454,25 @@ long onion_count_poller_threads(void) {
  */
 int onion_listen(onion * o) {
 #ifdef HAVE_PTHREADS
-  if (!(o->flags & O_DETACHED) && (o->flags & O_DETACH_LISTEN)) {       // Must detach and return
+  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+    if (o->flags & O_DETACHED)  // Previous one, stopped by itself
+      onion_low_pthread_join(o->listen_thread, NULL);
     o->flags |= O_DETACHED;
     int errcode =
         onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
                                  o);
-    if (errcode != 0)
+    if (errcode != 0) {
+      o->flags &= ~O_DETACHED;
       return errcode;
+    }
     return 0;
   }
 #endif
+  return onion_listen_run(o);
+}
 
+/// Performs the listening in the current thread.
+static int onion_listen_run(onion * o) {
   if (!o->listen_points) {
     onion_add_listen_point(o, NULL, NULL, onion_http_new());
     ONION_DEBUG("Created default HTTP listen port");
@@ -520,7 +541,7 @@ int onion_listen(onion * o) {
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
     if (o->flags & O_THREADED) {
-      o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
+      o->threads = onion_low_calloc(o->nthreads, sizeof(pthread_t));
       int i;
       int nthreads = 0;         // Only those really created can be joined.
       for (i = 0; i < o->nthreads - 1; i++) {
@@ -539,8 +560,6 @@ int onion_listen(onion * o) {
       for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
-      onion_low_free(o->threads);
-      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
@@ -556,11 +575,61 @@ int onion_listen(onion * o) {
     }
   }
 
-  o->flags = o->flags & ~O_LISTENING;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&o->mutex);
+  if (o->threads)
+    onion_low_free(o->threads);
+  o->threads = NULL;
+#endif
+  o->flags = o->flags & ~(O_LISTENING | O_STOPPING);
   shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&o->mutex);
+#endif
   return 0;
 }
 
+#ifdef HAVE_PTHREADS
+/// Whether current thread is one of those that work for onion_listen; it can not wait for itself.
+static bool onion_is_listen_thread(onion * o) {
+  pthread_t self = pthread_self();
+  if (pthread_equal(self, o->listen_thread))
+    return true;
+  int i;
+  for (i = 0; o->threads && i < o->nthreads - 1; i++) {
+    if (o->threads[i] && pthread_equal(self, o->threads[i]))
+      return true;
+  }
+  return false;
+}
+#endif
+
+/// Closes the listen points and tells the threads to finish, but does not wait for them.
+static void onion_listen_ask_stop(onion * server) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&server->mutex);
+#endif
+  /// Only if listening, and nobody asked before
+  if ((server->flags & (O_LISTENING | O_STOPPING)) == O_LISTENING) {
+    server->flags |= O_STOPPING;
+    onion_listen_point **lp = server->listen_points;
+    while (*lp) {
+      // Out of the poller before closing, as the file descriptor may be reused.
+      if (server->poller && !(server->flags & O_ONE) && (*lp)->listenfd >= 0)
+        onion_poller_remove(server->poller, (*lp)->listenfd);
+      onion_listen_point_listen_stop(*lp);
+      lp++;
+    }
+    if (server->poller) {
+      ONION_DEBUG("Stop listening");
+      onion_poller_stop(server->poller);
+    }
+  }
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&server->mutex);
+#endif
+}
+
 /**
  * @short Advises the listener to stop.
  *
@@ -570,37 +639,18 @@ int onion_listen(onion * o) {
  * If there is any pending connection, it can finish if onion not freed before.
  */
 void onion_listen_stop(onion * server) {
+  onion_listen_ask_stop(server);
 #ifdef HAVE_PTHREADS
-    pthread_mutex_lock(&server->mutex);
-  /// Not listening
-    if ((server->flags & O_LISTENING) == 0) {
-      pthread_mutex_unlock(&server->mutex);
-    return;
-    }
-#else /*no pthreads*/
-  /// Not listening
-  if ((server->flags & O_LISTENING) == 0)
-    return;
-#endif /*HAVE_PTHREADS*/
-
-  /// Stop listening
-  onion_listen_point **lp = server->listen_points;
-  while (*lp) {
-    // Out of the poller before closing, as the file descriptor may be reused.
-    if (server->poller && !(server->flags & O_ONE) && (*lp)->listenfd >= 0)
-      onion_poller_remove(server->poller, (*lp)->listenfd);
-    onion_listen_point_listen_stop(*lp);
-    lp++;
-  }
-  if (server->poller) {
-    ONION_DEBUG("Stop listening");
-    onion_poller_stop(server->poller);
-  }
-#ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
+  // Wait without the mutex, as handlers and the listen thread itself may need it.
+  pthread_mutex_lock(&server->mutex);
+  bool wait = (server->flags & O_STOPPING) && (server->flags & O_DETACHED)
+      && !onion_is_listen_thread(server);
+  if (wait)
+    server->flags &= ~O_DETACHED;
+  pthread_mutex_unlock(&server->mutex);
+  if (wait)
     onion_low_pthread_join(server->listen_thread, NULL);
-  pthread_mutex_unlock (&server->mutex);
-#endif	/* end HAVE_PTHREADS */
+#endif                          /* end HAVE_PTHREADS */
 }
 
 /**
diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..11fcda7 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -214,6 +214,7 @@ extern "C" {
 
     O_DETACHED = 0x01000,       ///< Currently listening on another thread.
     O_LISTENING = 0x02000,      ///< Currently listening
+    O_STOPPING = 0x04000,       ///< Listening, but was asked to stop
     /// @}
   };
 
-- 
2.43.0


From 4235f504e9255d6133d410c39a954d4df0a5ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:45 +0000
Subject: [PATCH 021/120] fix: do not read past the end when unquoting an
 incomplete % sequence

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..06025b8 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -255,7 +255,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] && r[2]) {    // Else incomplete, just copy it
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 5504000917092265c1eeb0252d11519252bc7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:45 +0000
Subject: [PATCH 022/120] fix: do not free twice the data of a urlencoded POST
 that does not finish

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1c09246..f6d6ae6 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -725,7 +725,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // Free when the request is freed.
+  token->extra = NULL;          // At query to dict, it keeps the pointer.
 
   return OCS_REQUEST_READY;
 }
@@ -1059,7 +1060,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
 
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
-- 
2.43.0


From 665252db594040944d27af0ff6ac230cf67431bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:45 +0000
Subject: [PATCH 023/120] fix: do not take a body of 4GB or more for an empty
 one

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f6d6ae6..6149494 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -817,7 +817,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From 0e6de84c380ae209f3e5e8c2f3cabe5dae2a621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:45 +0000
Subject: [PATCH 024/120] fix: do not write past the buffer of a multipart POST

---
 src/onion/request_parser.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 6149494..4d20f6a 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -518,6 +518,11 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
+        if (multipart->post_total_size <= 0) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
+        }
+        multipart->post_total_size--;
         *d = '\0';
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
@@ -577,37 +582,39 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   const char *name;
   name = strstr(token->str, "filename=");
   if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
+    int l = strlen(name + 9);
+    if (l + 1 > multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
       return OCS_INTERNAL_ERROR;
     }
+    multipart->post_total_size -= l + 1;
     multipart->filename = multipart->data;
     memcpy(multipart->filename, name + 9, l);
     multipart->filename[l] = 0;
     multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
+    if (l >= 2 && *multipart->filename == '"'
+        && multipart->filename[l - 1] == '"') {
+      multipart->filename[l - 1] = '\0';
       multipart->filename++;
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
     name = strstr(token->str, "name=");
     if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
+      int l = strlen(name + 5);
+      if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
         return OCS_INTERNAL_ERROR;
       }
+      multipart->post_total_size -= l + 1;
       multipart->name = multipart->data;
       memcpy(multipart->name, name + 5, l);
       multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
+      multipart->data = multipart->data + l + 1;
+      if (l >= 2 && *multipart->name == '"' && multipart->name[l - 1] == '"') {
+        multipart->name[l - 1] = '\0';
         multipart->name++;
       }
-      multipart->data = multipart->name + l + 1;
       ONION_DEBUG0("Set field name '%s'", multipart->name);
     }
   }
@@ -1079,7 +1086,7 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 6);      // Extra for \r\n--, \0 and alignment.
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
-- 
2.43.0


From 0db46a8e46e3c081e02f469048edbb176f10a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:45 +0000
Subject: [PATCH 025/120] fix: do not use a NULL name for multipart parts
 without name

---
 src/onion/request_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 4d20f6a..19e5ceb 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -657,6 +657,8 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     ONION_DEBUG("New line");
     onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
     multipart->pos = 0;
+    if (!multipart->name)
+      multipart->name = "";
 
     if (multipart->filename) {
       char filename[] = "/tmp/onion-XXXXXX";
-- 
2.43.0


From 89f4a13c4afc3e284145ca0c49339c35e62ee31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:20 +0000
Subject: [PATCH 026/120] fix: keep the first and last cookies right, and free
 them when there are none

---
 src/onion/request.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..71bc8d8 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -686,11 +686,11 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
   if (!ccookies)
     return req->cookies;
   char *cookies = onion_low_strdup(ccookies);   // I prepare a temporary string, will modify it.
+  req->free_list = onion_ptr_list_add(req->free_list, cookies); // Keys and values point into it.
   char *val = NULL;
   char *key = NULL;
   char *p = cookies;
 
-  int first = 1;
   while (*p) {
     if (*p != ' ' && !key && !val) {
       key = p;
@@ -699,25 +699,16 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
       val = p + 1;
     } else if (*p == ';' && key && val) {
       *p = 0;
-      if (first) {
-        // The first cookie is special as it is the pointer to the reserved area for all the keys and values
-        // for all th eother cookies, to free at dict free.
-        onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-        first = 0;
-      } else
-        onion_dict_add(req->cookies, key, val, 0);      /// Can use as static data as will be freed at first cookie free
-      ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+      onion_dict_add(req->cookies, key, val, 0);
+      ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
       val = NULL;
       key = NULL;
     }
     p++;
   }
-  if (key && val && val < p) {  // A final element, with value.
-    if (first)
-      onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
-      onion_dict_add(req->cookies, key, val, 0);
-    ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
+  if (key && val) {             // A final element
+    onion_dict_add(req->cookies, key, val, 0);
+    ONION_DEBUG0("Add cookie <%s>=<%s>", key, val);
   }
 
   return req->cookies;
-- 
2.43.0


From 6c4baefccfb6ab18c21db30c06baf4b42908b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 027/120] fix: count only the bytes of the files for the file
 size limit, and do not exceed it

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 19e5ceb..342f5f1 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -437,14 +437,14 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      int r = multipart->pos ? multipart->pos - multipart->startpos : 1;        // To write now
+      multipart->file_total_size += r;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(multipart->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -479,7 +479,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   int w = write(multipart->fd, tmp, tmppos);
-- 
2.43.0


From c389a2b5b45890b64fb926822ca4587048b14545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:48 +0000
Subject: [PATCH 028/120] fix: end the header of the session cookie with CRLF

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 1fe45d3..0c2a4e3 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -320,7 +320,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From c61e9258af2143049cd3347cf0b5096c58714fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 029/120] fix: do not use the reply of a redis command that
 failed

---
 src/onion/sessions_redis.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..484fc6d 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,7 +74,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
     freeReplyObject(reply);
     goto exit;
@@ -85,7 +85,7 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
         freeReplyObject(reply);
         goto exit;
@@ -122,7 +122,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
     freeReplyObject(reply);
@@ -132,7 +132,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
     freeReplyObject(reply);
-- 
2.43.0


From cf7ffe89fa0dbfa693d3d34604564e7efb2c76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 030/120] fix: remove sessions from the sqlite and redis
 backends when asked to

---
 src/onion/sessions_redis.c   |  4 ++--
 src/onion/sessions_sqlite3.c | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 484fc6d..a85b253 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -118,7 +118,7 @@ void onion_sessions_redis_save(onion_sessions * sessions,
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
@@ -136,8 +136,8 @@ void onion_sessions_redis_save(onion_sessions * sessions,
       ONION_ERROR("Error saving session");
     }
     freeReplyObject(reply);
-    onion_block_free(bl);
   }
+  onion_block_free(bl);
 
 #ifdef HAVE_PTHREADS
   pthread_mutex_unlock(&p->mutex);
diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..5fa9155 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -100,8 +102,30 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+  int rc;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  rc = sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC);
+  if (rc == SQLITE_OK)
+    rc = sqlite3_step(p->remove);
+  if (rc != SQLITE_DONE)
+    ONION_ERROR("Error removing session (%d)", rc);
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (data == NULL) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -151,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -178,6 +203,14 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -189,6 +222,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From a60bcf210b2ced807ab19f0798b23ac2360b866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:23 +0000
Subject: [PATCH 031/120] fix: give handlers a session when the backend can not
 store it

---
 src/onion/request.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 71bc8d8..8640aad 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -457,6 +457,8 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
       req->session =
           onion_sessions_get(req->connection.listen_point->server->sessions,
                              req->session_id);
+      if (!req->session)        // The backend could not store it. Users expect a dict anyway.
+        req->session = onion_dict_new();
     }
   }
   return req->session;
-- 
2.43.0


From 5454dc472a1cc1e479ddc0aac3498fefbc095ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:24 +0000
Subject: [PATCH 032/120] fix: release the redis session backend when it can
 not connect

---
 src/onion/sessions_redis.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index a85b253..966d233 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -161,9 +161,14 @@ onion_sessions *onion_sessions_redis_new(const char *server_ip, int port) {
   onion_session_redis *p = ret->data;
   p->context = redisConnect(server_ip, port);
 
-  if (p->context != NULL && p->context->err) {
-    ONION_ERROR("Can't connect to redis. Error (%s)", p->context->errstr);
-    redisFree(p->context);
+  if (p->context == NULL || p->context->err) {
+    ONION_ERROR("Can't connect to redis. Error (%s)",
+                p->context ? p->context->errstr : "no memory");
+    if (p->context)
+      redisFree(p->context);
+    onion_low_free(ret->data);
+    onion_low_free(ret);
+    onion_random_free();
     return NULL;
   }
 #ifdef HAVE_PTHREADS
-- 
2.43.0


From 37bb887133b79ff0c92907cec9c766e4cdf5cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 033/120] fix: lock the sessions in memory, several threads use
 them

---
 src/onion/sessions_mem.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..87c0260 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,30 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
+  if (sess)
+    sess = onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
   if (!sess) {
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
   }
-  return onion_dict_dup(sess);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
+  } else {
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
   }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From b918ff7ed2edfaada111d75d58620dd7929fef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 034/120] fix: store the session before the client can know
 that the response is complete

---
 src/onion/request.c        | 48 ++++++++++++++++++++++++--------------
 src/onion/types_internal.h |  2 ++
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 8640aad..cdd21c5 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -113,6 +113,21 @@ static void unlink_files(void *p, const char *key, const char *value, int flags)
   unlink(value);
 }
 
+/// Gives the session to the backend, once per request; empty sessions are removed.
+static void onion_request_session_store(onion_request * req) {
+  if (!req->session || req->session_stored)
+    return;
+  onion_sessions *sessions = req->connection.listen_point->server->sessions;
+  onion_dict_lock_read(req->session);   // Other requests may use the same session.
+  int n = onion_dict_count(req->session);
+  onion_dict_unlock(req->session);
+  if (n == 0)
+    onion_sessions_remove(sessions, req->session_id);
+  else
+    onion_sessions_save(sessions, req->session_id, req->session);
+  req->session_stored = 1;
+}
+
 /**
  * @short Deletes a request and all its data
  * @memberof onion_request_t
@@ -136,14 +151,9 @@ void onion_request_free(onion_request * req) {
     onion_dict_free(req->FILES);
   }
   if (req->session) {
-    if (onion_dict_count(req->session) == 0)
-      onion_request_session_free(req);
-    else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      onion_low_free(req->session_id);
-    }
+    onion_request_session_store(req);
+    onion_dict_free(req->session);      // Not really remove, just dereference
+    onion_low_free(req->session_id);
   }
   if (req->data)
     onion_block_free(req->data);
@@ -198,17 +208,13 @@ void onion_request_clean(onion_request * req) {
     req->FILES = NULL;
   }
   if (req->session_id) {
-    if (onion_dict_count(req->session) == 0) {
-      onion_request_session_free(req);
-    } else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      req->session = NULL;
-      onion_low_free(req->session_id);
-      req->session_id = NULL;
-    }
+    onion_request_session_store(req);
+    onion_dict_free(req->session);      // Not really remove, just dereference
+    req->session = NULL;
+    onion_low_free(req->session_id);
+    req->session_id = NULL;
   }
+  req->session_stored = 0;
   if (req->data) {
     onion_block_free(req->data);
     req->data = NULL;
@@ -451,6 +457,7 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
           ("Asking for session AFTER sending headers. This may result in double sessionids, and wrong session behaviour. Please modify your handlers to ask for session BEFORE sending any data.");
     }
     onion_request_guess_session_id(req);
+    req->session_is_new = !req->session;
     if (!req->session) {        // Maybe old session is not to be used anymore
       req->session_id =
           onion_sessions_create(req->connection.listen_point->server->sessions);
@@ -605,6 +612,11 @@ onion_connection_status onion_request_process(onion_request * req) {
 
     return hs;
   }
+  // When the client knows the response is complete it may ask again, maybe in
+  // other connection, and has to find the session as this request left it.
+  // Of a new session with nothing in it the client knows nothing.
+  if (!req->session_is_new || (req->session && req->session->root))
+    onion_request_session_store(req);
   int rs = onion_response_free(res);
   if (hs >= 0 && rs == OCS_KEEP_ALIVE)  // if keep alive, reset struct to get the new request.
     onion_request_clean(req);
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 994333e..27f8d23 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -106,6 +106,8 @@ extern "C" {
     onion_block *data;          /// Some extra data from PUT, normally PROPFIND.
     onion_dict *cookies;        /// Data about cookies.
     char *session_id;           /// Session id of the request, if any.
+    char session_is_new;        /// Whether the session was created for this request
+    char session_stored;        /// Whether the session was already given to the backend
     void *parser;               /// When recieving data, where to put it. Check at request_parser.c.
     void *parser_data;          /// Data necesary while parsing, muy be deleted when state changed. At free is simply freed.
     onion_websocket *websocket; /// Websocket handler. 
-- 
2.43.0


From 99ad4ad42eaef3ed93ce353dac2ad32d6151eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 035/120] fix: do not walk a session other requests may be
 changing

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 0c2a4e3..015c2c0 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -319,7 +319,9 @@ int onion_response_write_headers(onion_response * res) {
 
   onion_dict_preorder(res->headers, write_header, res);
 
-  if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
+  // I have session with something, tell user. Do not walk it, other requests may be changing it.
+  if (res->request->session_id && res->request->session
+      && res->request->session->root)
     onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
-- 
2.43.0


From 984b42264c7966c782e56bcafe923bc0d6334052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:47 +0000
Subject: [PATCH 036/120] fix: a worker that starts late stops too

onion_poller_poll forgot any previous stop when called, so if onion was
stopped before some of the workers reached it (or all others had already
finished) these never ended, nor the onion_listen or onion_free that wait
for them.
---
 src/onion/onion.c           |  6 +++---
 src/onion/poller.c          | 30 ++++++++++++++++++++++++++++--
 src/onion/poller.h          |  2 ++
 src/onion/poller_libev.c    | 10 +++++++++-
 src/onion/poller_libevent.c | 10 +++++++++-
 5 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 7a45c70..e6e7ef9 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -492,10 +492,10 @@ static int onion_listen_run(onion * o) {
     return 1;
   }
 
-  // Nobody is polling yet; this makes the poller forget any previous stop, or
-  // listening again would finish just after starting.
+  // Nobody is polling yet; forget any previous stop, or listening again would
+  // finish just after starting.
   if (o->poller)
-    onion_poller_stop(o->poller);
+    onion_poller_start(o->poller);
 
   o->flags |= O_LISTENING;
 
diff --git a/src/onion/poller.c b/src/onion/poller.c
index 3a8c9f4..2632e35 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -71,6 +71,7 @@ struct onion_poller_t {
 
   int n;
   char stop;
+  char remember_stop;           ///< Stops are only forgotten at onion_poller_start
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
   int npollers;
@@ -495,11 +496,13 @@ void onion_poller_poll(onion_poller * p) {
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   p->npollers++;
-  p->stop = 0;
+  if (!p->remember_stop)
+    p->stop = 0;
   ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
   pthread_mutex_unlock(&p->mutex);
 #else
-  p->stop = 0;
+  if (!p->remember_stop)
+    p->stop = 0;
 #endif
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
@@ -579,6 +582,29 @@ void onion_poller_poll(onion_poller * p) {
 #endif
 }
 
+/**
+ * @short Prepares the poller for several threads that will poll on it.
+ * @memberof onion_poller_t
+ * @ingroup poller
+ *
+ * Forgets any previous stop. Since this call onion_poller_poll does not, so
+ * that if the poller is stopped the threads that arrive late stop too.
+ *
+ * Must not be called when there are threads polling.
+ */
+void onion_poller_start(onion_poller * p) {
+  char data[8];
+  int __attribute__ ((unused)) r = read(p->eventfd, data, 8);   // Flush eventfd data, discard data
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  p->stop = 0;
+  p->remember_stop = 1;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 /**
  * @short Marks the poller to stop ASAP
  * @memberof onion_poller_t
diff --git a/src/onion/poller.h b/src/onion/poller.h
index 2e38f0c..20366cc 100644
--- a/src/onion/poller.h
+++ b/src/onion/poller.h
@@ -70,6 +70,8 @@ extern "C" {
 /// Removes a fd from the poller
   int onion_poller_remove(onion_poller * poller, int fd);
 
+/// Forgets previous stops; from now on threads that call onion_poller_poll after onion_poller_stop stop too.
+  void onion_poller_start(onion_poller *);
 /// Do the polling. If on several threads, this is done in every thread.
   void onion_poller_poll(onion_poller *);
 /// Stops the polling. This only marks the flag, and should be cancelled with pthread_cancel.
diff --git a/src/onion/poller_libev.c b/src/onion/poller_libev.c
index 8884c75..6080e65 100644
--- a/src/onion/poller_libev.c
+++ b/src/onion/poller_libev.c
@@ -33,6 +33,7 @@ struct onion_poller_t {
   struct ev_loop *loop;
   sem_t sem;
   volatile int stop;
+  int remember_stop;
 };
 
 struct onion_poller_slot_t {
@@ -159,7 +160,8 @@ void onion_poller_poll(onion_poller * poller) {
   ev_default_fork();
   ev_loop_fork(poller->loop);
 
-  poller->stop = 0;
+  if (!poller->remember_stop)
+    poller->stop = 0;
   while (!poller->stop) {
     sem_wait(&poller->sem);
     ev_run(poller->loop, EVLOOP_ONESHOT);
@@ -167,6 +169,12 @@ void onion_poller_poll(onion_poller * poller) {
   }
 }
 
+/// Forgets previous stops; from now on threads that call onion_poller_poll after onion_poller_stop stop too.
+void onion_poller_start(onion_poller * poller) {
+  poller->stop = 0;
+  poller->remember_stop = 1;
+}
+
 /// Stops the polling. This only marks the flag, and should be cancelled with pthread_cancel.
 void onion_poller_stop(onion_poller * poller) {
   poller->stop = 1;
diff --git a/src/onion/poller_libevent.c b/src/onion/poller_libevent.c
index f379289..bd6cf8c 100644
--- a/src/onion/poller_libevent.c
+++ b/src/onion/poller_libevent.c
@@ -34,6 +34,7 @@ struct onion_poller_t {
   struct event_base *base;
   sem_t sem;
   volatile int stop;
+  int remember_stop;
 };
 
 struct onion_poller_slot_t {
@@ -141,7 +142,8 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
 
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
-  poller->stop = 0;
+  if (!poller->remember_stop)
+    poller->stop = 0;
   while (!poller->stop) {
     sem_wait(&poller->sem);
     event_base_loop(poller->base, EVLOOP_ONCE);
@@ -149,6 +151,12 @@ void onion_poller_poll(onion_poller * poller) {
   }
 }
 
+/// Forgets previous stops; from now on threads that call onion_poller_poll after onion_poller_stop stop too.
+void onion_poller_start(onion_poller * poller) {
+  poller->stop = 0;
+  poller->remember_stop = 1;
+}
+
 /// Stops the polling. This only marks the flag, and should be cancelled with pthread_cancel.
 void onion_poller_stop(onion_poller * poller) {
   poller->stop = 1;
-- 
2.43.0


From 80d5d85247e045069d6b315ee3b413047e155dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 037/120] fix: websocket frame headers may arrive in several
 segments

---
 src/onion/websocket.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..ccea246 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -399,6 +399,21 @@ void onion_websocket_set_userdata(onion_websocket * ws, void *userdata,
   ws->free_user_data = free_userdata;
 }
 
+/// Reads exactly that many bytes, in as many reads as necessary. Returns 0 if ok.
+static int onion_websocket_recv(onion_websocket * ws, char *data, size_t length) {
+  lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
+  while (length > 0) {
+    ssize_t r = (*lpreader) (ws->req, data, length);
+    if (r < 0 && errno == EINTR)
+      continue;
+    if (r <= 0)
+      return -1;
+    data += r;
+    length -= r;
+  }
+  return 0;
+}
+
 /**
  * @short Reads a packet header.
  */
@@ -415,9 +430,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
-  int r = (*lpreader) (ws->req, tmp, 2);
-  //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
+  if (onion_websocket_recv(ws, tmp, 2) < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
@@ -430,17 +443,14 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_recv(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
-    //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
+    if (onion_websocket_recv(ws, tmp, 8) < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
@@ -451,9 +461,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
-    //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
+    if (onion_websocket_recv(ws, ws->mask, 4) < 0) {
       ONION_DEBUG("Error reading header (4)");
       return OCS_CLOSE_CONNECTION;
     }
@@ -468,8 +476,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     onion_websocket_write(ws, data, r);
   }
   if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_recv(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading status code");
       return OCS_CLOSE_CONNECTION;
     }
-- 
2.43.0


From c25de37554dc5938504a35faa03a9001d9ecd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 038/120] fix: write websocket frames of any length

---
 src/onion/websocket.c | 105 ++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 51 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index ccea246..f020d42 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,24 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/// Sends all that data, in as many writes as necessary. Returns 0 if ok.
+static int onion_websocket_send(onion_websocket * ws, const char *data,
+                                size_t length) {
+  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
+  while (length > 0) {
+    ssize_t w = (*lpwriter) (ws->req, data, length);
+    if (w < 0 && errno == EINTR)
+      continue;
+    if (w <= 0)
+      return -1;
+    if (w >= length)
+      break;
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -172,70 +190,55 @@ void onion_websocket_free(onion_websocket * ws) {
  *
  * @param ws The Websocket
  * @param buffer Data to write
- * @param _len Length of data to write
+ * @param len Length of data to write
  * @returns Bytes written or <0 if error writting.
  */
-int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len) {
+int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t len) {
   if (!ws->req) {               // should not happen....
     ONION_DEBUG("no request in websocket@%p", ws);
     return -1;
   }
-  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
-  ssize_t len = _len;           // I need it signed here
-  if (!lpwriter) {
+  if (!ws->req->connection.listen_point->write) {
     ONION_DEBUG("no listen point writer for websocket@%p", ws);
     return -1;
   }
   //ONION_DEBUG("Write %d bytes",len);
-  {
-    char header[16];
-    int hlen = 2;
-    header[0] = 0x80 | (ws->opcode & 0x0F);     // Also final in fragment.
-    header[1] = 0x00;           // Do not mask on send
-    if (len < 126)
-      header[1] |= len;
-    else if (len < 0x0FFFF) {
-      header[1] |= 126;
-      header[2] = (len >> 8) & 0x0FF;
-      header[3] = (len) & 0x0FF;
-      hlen += 2;
-    } else {
-      header[1] |= 127;
-      int i;
-      int tlen = len;
-      for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
-        tlen >>= 8;
-      }
-      hlen += 8;
-    }
-
-    /*
-       int i;
-       for(i=0;i<hlen;i++){
-       ONION_DEBUG("%d: %02X", i, header[i]&0x0FF);
-       }
-     */
-
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
+  char tout[1024];              // The header, and as much data as possible
+  size_t pos = 2;
+  tout[0] = 0x80 | (ws->opcode & 0x0F); // Also final in fragment.
+  if (len < 126)                // Do not mask on send
+    tout[1] = len;
+  else if (len <= 0x0FFFF) {
+    tout[1] = 126;
+    tout[2] = (len >> 8) & 0x0FF;
+    tout[3] = (len) & 0x0FF;
+    pos += 2;
+  } else {
+    tout[1] = 127;
+    int i;
+    uint64_t tlen = len;
+    for (i = 0; i < 8; i++) {
+      tout[9 - i] = tlen & 0x0FF;
+      tlen >>= 8;
     }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    pos += 8;
   }
 
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  size_t left = len;
+  do {
+    size_t l = sizeof(tout) - pos;
+    if (l > left)
+      l = left;
+    if (l > 0)
+      memcpy(&tout[pos], buffer, l);
+    if (onion_websocket_send(ws, tout, pos + l) < 0)
+      return -1;
+    buffer += l;
+    left -= l;
+    pos = 0;
+  } while (left > 0);
+
+  return len;
 }
 
 /**
-- 
2.43.0


From c88b6b9548cd710f9312375938e954ca893336cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 039/120] fix: account what is read from the websocket, and
 finish when it is broken

---
 src/onion/websocket.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index f020d42..0c646f4 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,7 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSED = 4,                // No more data can be read nor written
 };
 
 // signature of writer in listen point.
@@ -153,6 +154,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
  * @param ws
  */
 void onion_websocket_free(onion_websocket * ws) {
+  ws->flags |= WS_CLOSED;       // The connection may be closed already.
   if (ws->callback)
     ws->callback(ws->user_data, ws, -1);
 
@@ -202,6 +204,8 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t len)
     ONION_DEBUG("no listen point writer for websocket@%p", ws);
     return -1;
   }
+  if (ws->flags & WS_CLOSED)
+    return -1;
   //ONION_DEBUG("Write %d bytes",len);
   char tout[1024];              // The header, and as much data as possible
   size_t pos = 2;
@@ -261,15 +265,20 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     ONION_DEBUG("no request in websocket@%p", ws);
     return -1;
   }
+  if (len == 0)
+    return 0;
   lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
   if (!lpreader) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return -1;
   }
+  if (ws->flags & WS_CLOSED)
+    return -1;
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
   if (ws->data_left == 0) {
     onion_connection_status status;
     if ((status = onion_websocket_read_packet_header(ws)) < 0) {
+      ws->flags |= WS_CLOSED;
       if (status == -2)
         return -2;
       ONION_ERROR("Error reading websocket header (%i)", status);
@@ -283,7 +292,16 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     len = ws->data_left;
     //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
   }
-  int r = (*lpreader) (ws->req, buffer, len);
+  int r = 0;
+  if (len > 0) {
+    do {
+      r = (*lpreader) (ws->req, buffer, len);
+    } while (r < 0 && errno == EINTR);
+    if (r <= 0) {               // Broken in the middle of a fragment.
+      ws->flags |= WS_CLOSED;
+      return r;
+    }
+  }
   if (ws->flags & WS_MASK) {
     char *p = buffer;
     int i;
@@ -294,11 +312,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   }
   ws->data_left -= r;
 
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
+  if (left_len && r == len) {
+    int next = onion_websocket_read(ws, &buffer[len], left_len);
+    if (next > 0)
+      r += next;
+    else if (r == 0)
+      r = next;
   }
   return r;
 }
@@ -529,10 +548,12 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback
+               && !(ws->flags & WS_CLOSED));
     }
 
-    if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
+    if (!ws->callback || ws->flags & WS_CLOSED) // ws->callback can change ws->callback, so another test, not else.
       ret = OCS_CLOSE_CONNECTION;
   }
   ONION_DEBUG("Websocket connection closed (%d)", ret);
-- 
2.43.0


From a37f628eb15cfa3847715b78e2c2fd2b75b639d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 040/120] fix: answer websocket pings and closes as the
 protocol says

---
 src/onion/types.h     |  4 ++--
 src/onion/websocket.c | 55 +++++++++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 11fcda7..835fc40 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -274,8 +274,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 0c646f4..602c562 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -277,7 +277,10 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
   if (ws->data_left == 0) {
     onion_connection_status status;
-    if ((status = onion_websocket_read_packet_header(ws)) < 0) {
+    do {
+      status = onion_websocket_read_packet_header(ws);
+    } while (status == OCS_NEED_MORE_DATA);
+    if (status < 0) {
       ws->flags |= WS_CLOSED;
       if (status == -2)
         return -2;
@@ -438,6 +441,9 @@ static int onion_websocket_recv(onion_websocket * ws, char *data, size_t length)
 
 /**
  * @short Reads a packet header.
+ *
+ * @returns OCS_PROCESSED if there is a new fragment, OCS_NEED_MORE_DATA if it was answered here and has to
+ *          read another header, <0 if the connection has to be closed.
  */
 static onion_connection_status
 onion_websocket_read_packet_header(onion_websocket * ws) {
@@ -490,27 +496,38 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ws->mask_pos = 0;
   }
 
-  if (ws->opcode == OWS_PING) { // I do answer ping myself.
-    onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
+  if (ws->data_left < 0) {
+    ONION_DEBUG("Bad fragment length");
+    return OCS_CLOSE_CONNECTION;
   }
-  if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    if (onion_websocket_recv(ws, tmp, 2) < 0) {
-      ONION_DEBUG("Error reading status code");
+
+  if (ws->opcode == OWS_PING || ws->opcode == OWS_CONNECTION_CLOSE) {   // I do answer these myself.
+    char data[125];
+    int i, length = ws->data_left;
+    if (ws->data_left > sizeof(data)) {
+      ONION_DEBUG("Too big control fragment");
       return OCS_CLOSE_CONNECTION;
     }
-    char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
-    ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
-    onion_websocket_close(ws, (const char *)&status);
-    return OCS_CLOSE_CONNECTION;
+    if (onion_websocket_recv(ws, data, length) < 0) {
+      ONION_DEBUG("Error reading control fragment");
+      return OCS_CLOSE_CONNECTION;
+    }
+    ws->data_left = 0;
+    if (ws->flags & WS_MASK)
+      for (i = 0; i < length; i++)
+        data[i] ^= ws->mask[i & 3];
+
+    if (ws->opcode == OWS_CONNECTION_CLOSE) {   // Closing connection
+      ONION_DEBUG("Connection closed by client");
+      onion_websocket_write(ws, data, length < 2 ? 0 : 2);      // Same status, if any.
+      return OCS_CLOSE_CONNECTION;
+    }
+    onion_websocket_set_opcode(ws, OWS_PONG);
+    if (onion_websocket_write(ws, data, length) < 0)
+      return OCS_CLOSE_CONNECTION;
+    return OCS_NEED_MORE_DATA;
   }
-  return OCS_NEED_MORE_DATA;
+  return OCS_PROCESSED;
   //ONION_DEBUG("Mask %02X %02X %02X %02X", ws->mask[0]&0x0FF, ws->mask[1]&0x0FF, ws->mask[2]&0x0FF, ws->mask[3]&0x0FF);
 }
 
@@ -542,6 +559,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (err == OCS_NEED_MORE_DATA)
+          continue;
       }
 
       size_t last_d_l;
-- 
2.43.0


From 3a89edab3b0b7c828b29b72e526f455e3ae0f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 041/120] fix: long onion_websocket_printf

---
 src/onion/websocket.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 602c562..b19d70d 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -339,7 +339,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
+  va_list again;
+  va_copy(again, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, again);
+  va_end(again);
+  if (l < 0)
+    return l;
   if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
@@ -351,7 +356,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From f6775da0c1a611def652c711e7fb8640d523fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:03 +0000
Subject: [PATCH 042/120] fix: accept the websocket subprotocol, and count only
 the created websockets

---
 src/onion/websocket.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index b19d70d..0c4c397 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -78,8 +78,6 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   if (req->websocket)
     return req->websocket;
 
-  onion_random_init();
-
   const char *upgrade = onion_request_get_header(req, "Upgrade");
   if (!upgrade || strcasecmp(upgrade, "websocket") != 0)
     return NULL;
@@ -122,13 +120,14 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
   if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+    onion_response_set_header(res, "Sec-Websocket-Protocol", ws_protocol);
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
   onion_response_write_headers(res);
   onion_response_write(res, "", 0);     // AKA flush
 
+  onion_random_init();
   onion_websocket *ret = onion_low_malloc(sizeof(onion_websocket));
   ret->callback = NULL;
   ret->req = req;
-- 
2.43.0


From 95dd7c4a497ab4ddc17a733648e0a0da1fc93d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:03 +0000
Subject: [PATCH 043/120] fix: a signal does not end the wait for websocket
 data

---
 src/onion/websocket.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 0c4c397..dc1e8ce 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -548,7 +548,10 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
       //ONION_DEBUG("Wait for data");
-      int r = poll(&pfd, 1, -1);
+      int r;
+      do {
+        r = poll(&pfd, 1, -1);
+      } while (r < 0 && errno == EINTR);
       if (r == 0)
         return OCS_INTERNAL_ERROR;
       //ONION_DEBUG("waited for data fd %d -- res %d -- events %d", ws->req->fd, r, pfd.events);
-- 
2.43.0


From 48b1ed9d1e348fabc6917c1a2787591de9331723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:21 +0000
Subject: [PATCH 044/120] fix: no HTTP error pages into a websocket

---
 src/onion/request.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index cdd21c5..d69e63b 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -588,8 +588,11 @@ onion_connection_status onion_request_process(onion_request * req) {
       onion_handler_handle(req->connection.listen_point->server->root_handler,
                            req, res);
 
-  if (hs == OCS_INTERNAL_ERROR ||
-      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+  if (req->websocket) {         // It does not talk HTTP anymore, there is no place for error pages.
+    if (hs >= 0)
+      hs = OCS_CLOSE_CONNECTION;
+  } else if (hs == OCS_INTERNAL_ERROR ||
+             hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From f295e7f3b4c66e7cb6425b7f297841e08e07228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:51 +0000
Subject: [PATCH 045/120] fix: https requests that come in big TLS records

---
 src/onion/https.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 7db57c6..875b161 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -65,6 +65,7 @@ typedef struct onion_https_t onion_https;
 
 int onion_http_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
+static int onion_https_read_ready(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
@@ -93,7 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
-  op->read_ready = onion_http_read_ready;
+  op->read_ready = onion_https_read_ready;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -257,6 +258,22 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   return ret;
 }
 
+/**
+ * @short HTTPS client has data ready to be readen
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * What is already decrypted will not make the poller call again, so read it all now.
+ */
+static int onion_https_read_ready(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  int r;
+  do {
+    r = onion_http_read_ready(req);
+  } while (r >= 0 && gnutls_record_check_pending(session) > 0);
+  return r;
+}
+
 /**
  * @short Writes some data to the HTTPS client.
  * @memberof onion_https_t
-- 
2.43.0


From 304c15bbb6a6ae700981fe760b4f74da28eacd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:51 +0000
Subject: [PATCH 046/120] fix: several websocket fragments in one TLS record

---
 src/onion/https.c          | 11 +++++++++--
 src/onion/types_internal.h |  1 +
 src/onion/websocket.c      |  5 ++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 875b161..74b50ee 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -66,6 +66,7 @@ typedef struct onion_https_t onion_https;
 int onion_http_read_ready(onion_request * req);
 static int onion_https_request_init(onion_request * req);
 static int onion_https_read_ready(onion_request * req);
+static size_t onion_https_read_pending(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
@@ -92,6 +93,7 @@ onion_listen_point *onion_https_new() {
   op->free_user_data = onion_https_free_user_data;
   op->listen_stop = onion_https_listen_stop;
   op->read = onion_https_read;
+  op->read_pending = onion_https_read_pending;
   op->write = onion_https_write;
   op->close = onion_https_close;
   op->read_ready = onion_https_read_ready;
@@ -266,14 +268,19 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
  * What is already decrypted will not make the poller call again, so read it all now.
  */
 static int onion_https_read_ready(onion_request * req) {
-  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   int r;
   do {
     r = onion_http_read_ready(req);
-  } while (r >= 0 && gnutls_record_check_pending(session) > 0);
+  } while (r >= 0 && onion_https_read_pending(req) > 0);
   return r;
 }
 
+/// How much data is decrypted, but not read yet
+static size_t onion_https_read_pending(onion_request * req) {
+  return gnutls_record_check_pending((gnutls_session_t) req->connection.
+                                     user_data);
+}
+
 /**
  * @short Writes some data to the HTTPS client.
  * @memberof onion_https_t
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 27f8d23..f03e8b1 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -203,6 +203,7 @@ extern "C" {
     int (*read_ready) (onion_request * req);    ///< When poller detects data is ready to be read. Might be diferent in diferent parts of the processing.
      ssize_t(*write) (onion_request * req, const char *data, size_t len);       ///< Write data to the given request.
      ssize_t(*read) (onion_request * req, char *data, size_t len);      ///< Read data from the given request and write it in data.
+     size_t(*read_pending) (onion_request * req);       ///< Data that can be read without any change at the fd, if the protocol has such. May be NULL.
     void (*close) (onion_request * req);        ///< Closes the connection and frees listen point user data. Request itself it left. It is called from onion_request_free ONLY.
     /// @}
   };
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index dc1e8ce..febef3e 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -543,7 +543,10 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
 onion_connection_status onion_websocket_call(onion_websocket * ws) {
   onion_connection_status ret = OCS_NEED_MORE_DATA;
   while (ret == OCS_NEED_MORE_DATA) {
-    if (ws->req->connection.fd > 0) {
+    onion_listen_point *lp = ws->req->connection.listen_point;
+    if (lp->read_pending && lp->read_pending(ws->req) > 0) {
+      ONION_DEBUG0("Data already received");
+    } else if (ws->req->connection.fd > 0) {
       struct pollfd pfd;
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
-- 
2.43.0


From 5338491bf3418db6d29f65ae91d037d38448a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:51 +0000
Subject: [PATCH 047/120] fix: a client that does not finish the TLS handshake
 is dropped at the timeout

---
 src/onion/https.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 74b50ee..5681d46 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -207,7 +207,8 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @returns <0 in case of error.
  */
 static int onion_https_request_init(onion_request * req) {
-  onion_listen_point_request_init_from_socket(req);
+  if (onion_listen_point_request_init_from_socket(req) < 0)
+    return -1;
   onion_https *https = (onion_https *) req->connection.listen_point->user_data;
 
   ONION_DEBUG("Accept new request, fd %d", req->connection.fd);
@@ -227,6 +228,9 @@ static int onion_https_request_init(onion_request * req) {
   int ret;
   do {
     ret = gnutls_handshake(session);
+    // Not fatal, but it already waited for as long as the timeout allows.
+    if (ret == GNUTLS_E_AGAIN)
+      break;
   } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
-- 
2.43.0


From bdf6210d184fefce5b77b02e7b96fc8682a00b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:51 +0000
Subject: [PATCH 048/120] fix: a signal does not break the https connection

---
 src/onion/https.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 5681d46..39e1bcf 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -256,10 +256,14 @@ static int onion_https_request_init(onion_request * req) {
  */
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
-  ssize_t ret = gnutls_record_recv(session, data, len);
+  ssize_t ret;
+  do {
+    ret = gnutls_record_recv(session, data, len);
+  } while (ret == GNUTLS_E_INTERRUPTED);
   ONION_DEBUG("Read! (%p), %d bytes", session, ret);
   if (ret < 0) {
     ONION_ERROR("Reading data has failed (%s)", gnutls_strerror(ret));
+    errno = EIO;                // It may have any old value
   }
   return ret;
 }
@@ -298,7 +302,13 @@ static size_t onion_https_read_pending(onion_request * req) {
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   ONION_DEBUG("Write! (%p)", session);
-  return gnutls_record_send(session, data, len);
+  ssize_t ret;
+  do {
+    ret = gnutls_record_send(session, data, len);
+  } while (ret == GNUTLS_E_INTERRUPTED);
+  if (ret < 0)
+    errno = EIO;                // It may have any old value
+  return ret;
 }
 
 /**
-- 
2.43.0


From 7cbb0bafd25d3923f79be305e48487c45a4d2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 049/120] fix: do not export directories whose name just starts
 as the exported one

---
 src/onion/handlers/exportlocal.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..6c0bd99 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,7 +89,15 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  if (!ret) {
+    ONION_DEBUG0("Not found %s.", tmp);
+    return 0;
+  }
+  size_t l = strlen(d->localpath);
+  if (l == 1)                   // Exporting the full filesystem, it is just "/"
+    l = 0;
+  if (strncmp(realp, d->localpath, l) != 0
+      || (realp[l] != '/' && realp[l] != '\0')) {       // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
          d->localpath, realp);
-- 
2.43.0


From 5b9593951bb127fad76ff7fc663c2e88d3bb7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 050/120] fix: a long Range header wrote past the etag

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..6eb273e 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -198,7 +198,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
 
   const char *range = onion_request_get_header(request, "Range");
   if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
+    strncat(etag, range, sizeof(etag) - strlen(etag) - 1);
   }
   onion_response_set_header(res, "Etag", etag);
 
-- 
2.43.0


From c81acbfd44e60455dffb70a991a607ce8916a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 051/120] fix: only HEAD gets a file without content

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 6eb273e..182efa1 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -259,7 +259,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     return OCS_PROCESSED;
   }
   onion_response_write_headers(res);
-  if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
+  if ((onion_request_get_flags(request) & OR_METHODS) == OR_HEAD) {     // Just head.
     length = 0;
   }
 
-- 
2.43.0


From da4c74ad2376c7792582baa95b24702f0f2fd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 052/120] fix: ranges that end after the file, of its last
 bytes, and beyond it

---
 src/onion/shortcuts.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 182efa1..3bf980e 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -203,7 +203,6 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
     //ONION_DEBUG("Need just a range: %s",range);
     char tmp[1024];
     if (strlen(range + 6) >= sizeof(tmp)) {
@@ -220,15 +219,18 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       end++;
 
       //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
+      size_t ends = length - 1, starts;
+      if (*start) {
+        starts = strtoull(start, NULL, 10);
+        if (*end && strtoull(end, NULL, 10) < ends)
+          ends = strtoull(end, NULL, 10);
+      } else {                  // The last bytes
+        starts = strtoull(end, NULL, 10);
+        starts = starts < length ? length - starts : 0;
+      }
+      if (starts > ends || starts >= length) {
         ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
+        snprintf(tmp, sizeof(tmp), "bytes */%zu", length);
         onion_response_set_header(res, "Content-Range", tmp);
         onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
         onion_response_write_headers(res);
@@ -237,8 +239,9 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       }
       length = ends - starts + 1;
       lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
+      onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
+      snprintf(tmp, sizeof(tmp), "bytes %zu-%zu/%zu", starts, ends,
+               (size_t) st.st_size);
       //onion_response_set_header(res, "Accept-Ranges","bytes");
       onion_response_set_header(res, "Content-Range", tmp);
     }
-- 
2.43.0


From 77284655cf0d70e4d3a23c1783fce99dc885b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 053/120] fix: send files whole whatever sendfile and read do,
 or close the connection

---
 src/onion/shortcuts.c | 56 +++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 3bf980e..9495cba 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -267,52 +267,46 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   }
 
   if (length) {
+    size_t left = length;
 #ifdef USE_SENDFILE
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      while (left > 0) {
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, left);
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0)             // Closed connection, or the file is shorter now
+          break;
+        left -= r;
       }
-      res->sent_bytes += length;
-      res->sent_bytes_total += length;
+      res->sent_bytes += length - left;
+      res->sent_bytes_total += length - left;
     } else
 #endif
     {                           // Ok, no I cant, do it as always.
-      int r = 0, w;
-      size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
-        }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
-        w = onion_response_write(res, tmp, r);
+      while (left > 0) {
+        ssize_t r = read(fd, tmp, left < sizeof(tmp) ? left : sizeof(tmp));
+        if (r < 0 && errno == EINTR)
+          continue;
+        if (r <= 0)
+          break;
+        ssize_t w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-               w, r);
+               (int)w, (int)r);
+          break;
         }
+        left -= r;
       }
     }
+    if (left > 0) {             // The length is already told, so the client has to know that it is not complete.
+      ONION_ERROR("Could not send all file (%s)", strerror(errno));
+      close(fd);
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   close(fd);
   return OCS_PROCESSED;
-- 
2.43.0


From d296c7998530c49174251435523938be6fcad771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 054/120] fix: size and etag of the very file that is sent

---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 9495cba..d64859a 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -176,7 +176,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   }
 
   struct stat st;
-  if (stat(filename, &st) != 0) {
+  if (fstat(fd, &st) != 0) {    // Of what is open, filename may be another file now.
     ONION_WARNING("File does not exist: %s", filename);
     close(fd);
     return OCS_NOT_PROCESSED;
-- 
2.43.0


From e24f39e7f2ffb31c3970e2f3265492057f7508bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 055/120] fix: size of the date strings

---
 src/onion/shortcuts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index d64859a..a962876 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -345,7 +345,7 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts);
 }
 
 /**
@@ -357,7 +357,7 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  strftime(dest, 21, "%FT%TZ", &ts);
 }
 
 /**
-- 
2.43.0


From b1b0eb41e85075377057e620393ec7776bf849ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:42 +0000
Subject: [PATCH 056/120] fix: several threads may ask for the first mime type
 at the same time

---
 src/onion/mime.c | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..a0c1d10 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -27,6 +27,10 @@
 
 #include "types.h"
 #include "mime.h"
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+#endif
+
 #include "dict.h"
 #include "log.h"
 #include "utils.h"
@@ -92,23 +96,22 @@ const char *onion_mime_get(const char *filename) {
  *
  *
  */
-static void onion_mime_fill() {
-  onion_mime_set(NULL);
-  onion_mime_dict = onion_dict_new();
+static onion_dict *onion_mime_read() {
+  onion_dict *dict = onion_dict_new();
   //ONION_DEBUG("Filling mime types");
 
   FILE *fd = fopen("/etc/mime.types", "rt");
   if (!fd) {
     ONION_WARNING
         ("Could not read MIME types (etc/mime.types), returned mime types may be incorrect. Adding minimal set.");
-    onion_dict_add(onion_mime_dict, "html", "text/html", 0);
-    onion_dict_add(onion_mime_dict, "htm", "text/html", 0);
-    onion_dict_add(onion_mime_dict, "js", "application/javascript", 0);
-    onion_dict_add(onion_mime_dict, "mjs", "application/javascript", 0);
-    onion_dict_add(onion_mime_dict, "css", "text/css", 0);
-    onion_dict_add(onion_mime_dict, "png", "image/png", 0);
-    onion_dict_add(onion_mime_dict, "jpg", "image/jpeg", 0);
-    return;
+    onion_dict_add(dict, "html", "text/html", 0);
+    onion_dict_add(dict, "htm", "text/html", 0);
+    onion_dict_add(dict, "js", "application/javascript", 0);
+    onion_dict_add(dict, "mjs", "application/javascript", 0);
+    onion_dict_add(dict, "css", "text/css", 0);
+    onion_dict_add(dict, "png", "image/png", 0);
+    onion_dict_add(dict, "jpg", "image/jpeg", 0);
+    return dict;
   }
   char mimetype[128];
   char extension[8];
@@ -123,7 +126,7 @@ static void onion_mime_fill() {
     if (c == '\n') {
       if (mode == 1 && i != 0) {
         extension[i] = 0;
-        onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+        onion_dict_add(dict, extension, mimetype, OD_DUP_ALL);
         //ONION_DEBUG("Add mimetype '%s' (%s).", extension, mimetype);
       }
       mode = 0;
@@ -137,7 +140,7 @@ static void onion_mime_fill() {
         } else if (i != 0) {
           extension[i] = '\0';
           i = 0;
-          onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+          onion_dict_add(dict, extension, mimetype, OD_DUP_ALL);
           //ONION_DEBUG("Add mimetype '%s' (%s)", extension, mimetype);
         }
       } else {
@@ -152,7 +155,7 @@ static void onion_mime_fill() {
             extension[i] = '\0';
             i = 0;
             mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+            onion_dict_add(dict, extension, mimetype, OD_DUP_ALL);
             //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
           } else
             extension[i++] = c;
@@ -162,7 +165,21 @@ static void onion_mime_fill() {
   }
   fclose(fd);
 
-  ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
+  ONION_DEBUG("I know %d mime types", onion_dict_count(dict));
+  return dict;
+}
+
+/// Fills the mime dict, if nobody did it yet. Others see it only when it is complete.
+static void onion_mime_fill() {
+#ifdef HAVE_PTHREADS
+  static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+  pthread_mutex_lock(&mutex);
+#endif
+  if (!onion_mime_dict)
+    onion_mime_dict = onion_mime_read();
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&mutex);
+#endif
 }
 
 /**
-- 
2.43.0


From 2bf5c9f8e033efb719db9bb108b0282708144047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:42 +0000
Subject: [PATCH 057/120] fix: do not list what can not be accessed

---
 src/onion/handlers/exportlocal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 6c0bd99..8aec852 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -192,13 +192,14 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
+  char temp[PATH_MAX];
   struct passwd *pwd;
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
+    if (stat(temp, &st) != 0)   // Not there anymore, or goes nowhere.
+      continue;
     pwd = getpwuid(st.st_uid);
 
     if (S_ISDIR(st.st_mode))
-- 
2.43.0


From 2f9c8e55903056334381fbeafac9e247a04ef8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 058/120] fix: long webdav paths were truncated

---
 src/onion/handlers/webdav.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..8fd5535 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -40,6 +40,7 @@
 #include <fcntl.h>
 #include <stdlib.h>
 #include <libgen.h>
+#include <limits.h>
 
 struct onion_webdav_t {
   char *path;
@@ -111,9 +112,10 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
   }
 #endif
 
-  char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  char filename[PATH_MAX];
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename))
+    return onion_shortcut_response("Path too long", HTTP_BAD_REQUEST, req, res);
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From ec37c4fed064b4cabc54052da378405e38202026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 059/120] fix: do not share by webdav directories whose name
 just starts as the shared one

---
 src/onion/handlers/webdav.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 8fd5535..5f06af9 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -738,10 +738,14 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
-    ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+  if (ret == 0) {
+    size_t l = strlen(base);
+    while (l > 0 && base[l - 1] == '/')
+      l--;
+    if (strncmp(base, file, l) != 0 || (file[l] != '/' && file[l] != 0)) {
+      ret = 1;
+      ONION_ERROR("Base %s is not for file %s", base, file);
+    }
   }
 
   if (base)
-- 
2.43.0


From 47fd2969e33841198ed9ef4b1a7393968886029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 060/120] fix: webdav move renamed the resource to itself

---
 src/onion/handlers/webdav.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 5f06af9..d3feb2c 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -32,6 +32,7 @@
 #include <onion/block.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
+#include <onion/codecs.h>
 
 #include "webdav.h"
 #include <string.h>
@@ -192,10 +193,12 @@ onion_connection_status onion_webdav_move(const char *filename,
   for (i = 0; i < 3; i += (*dest++ == '/'))
     if (*dest == 0)
       return OCS_INTERNAL_ERROR;
-  dest--;
+  // It is an URL, so it comes quoted
+  char *dest_path = onion_low_strdup(dest - 1);
+  onion_unquote_inplace(dest_path);
+  dest = dest_path;
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -206,19 +209,23 @@ onion_connection_status onion_webdav_move(const char *filename,
     tmp[l] = 0;
     ONION_WARNING("Move to out of this webdav share! (%s is out of %s)", dest,
                   tmp);
+    onion_low_free(dest_path);
     return onion_shortcut_response("Moving out of shared share", HTTP_FORBIDDEN,
                                    req, res);
   }
-  dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
+  char fdest[PATH_MAX];
+  int l = snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, &dest[fpl - ppl]);
+  onion_low_free(dest_path);
+  if (l >= sizeof(fdest))
+    return onion_shortcut_response("Path too long", HTTP_BAD_REQUEST, req, res);
 
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  // The origin was already checked.
+  if (wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
+  const char *orig = filename;
 
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-- 
2.43.0


From f3c853dcca2faf3427e45c107bada4c991e14574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 061/120] fix: webdav propfind with no body, or one that is not
 XML

---
 src/onion/handlers/webdav.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index d3feb2c..37d0a44 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -302,18 +302,25 @@ onion_connection_status onion_webdav_options(const char *filename,
 /**
  * @short Returns the set of props for this query
  * 
- * The block contains the propfind xml, and it returns the mask of props to show.
- * 
+ * The block contains the propfind xml, and it returns the mask of props to show. If there is no block,
+ * all of them are asked for.
+ *
+ * @returns The mask, or -1 if could not parse it.
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block)
+    return WD_RESOURCE_TYPE | WD_CONTENT_LENGTH | WD_LAST_MODIFIED |
+        WD_CREATION_DATE | WD_ETAG | WD_CONTENT_TYPE | WD_DISPLAY_NAME |
+        WD_EXECUTABLE;
+
   // For parsing the data
   xmlDocPtr doc;
   doc =
       xmlParseMemory((char *)onion_block_data(block), onion_block_size(block));
 
   if (doc == NULL) {
-    ONION_ERROR("Error: unable to parse OPTIONS");
-    return OCS_INTERNAL_ERROR;
+    ONION_ERROR("Error: unable to parse PROPFIND");
+    return -1;
   }
 
   int props = 0;
@@ -606,6 +613,8 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   }
 
   int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  if (props < 0)
+    return onion_shortcut_response("Bad request", HTTP_BAD_REQUEST, req, res);
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
-- 
2.43.0


From 88d2d86435962054d7555eba836188bd23fb9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 062/120] fix: base path of webdav propfind responses

---
 src/onion/handlers/webdav.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 37d0a44..29d1b85 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -591,11 +591,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From e0b7b73da486961c8dd36eeaa7def3deb47fc599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 063/120] fix: webdav proppatch of files that do not exist, or
 with no value

---
 src/onion/handlers/webdav.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 29d1b85..54ecfb2 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -673,17 +673,22 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
                 if (strcmp((const char *)prop->name, "executable") == 0) {
-                  ONION_DEBUG("Setting executable %s", prop->children->content);
+                  const char *value = "";
+                  if (prop->children && prop->children->content)
+                    value = (const char *)prop->children->content;
+                  ONION_DEBUG("Setting executable %s", value);
                   struct stat st;
-                  stat(filename, &st);
-                  if (prop->children->content[0] == 'T'
-                      || prop->children->content[0] == 't') {
-                    chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
-                  } else {
-                    chmod(filename,
-                          st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
+                  if (stat(filename, &st) == 0) {
+                    if (value[0] == 'T' || value[0] == 't') {
+                      ok = chmod(filename,
+                                 st.st_mode | S_IXUSR | S_IXGRP |
+                                 S_IXOTH) == 0;
+                    } else {
+                      ok = chmod(filename,
+                                 st.st_mode & ~(S_IXUSR | S_IXGRP |
+                                                S_IXOTH)) == 0;
+                    }
                   }
-                  ok = 1;
                 }
                 prop = prop->next;
               }
-- 
2.43.0


From 52cf610df894d49db221ec2b652303fce0ed420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 064/120] fix: webdav size of files over 2 GB

---
 src/onion/handlers/webdav.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 54ecfb2..83fd27e 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -458,7 +458,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%lld", (long long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
-- 
2.43.0


From 99600227e9e31221e23f5b58723d67200ce0f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:35 +0000
Subject: [PATCH 065/120] fix: moving a file to another file system may not
 lose nor cut it

---
 src/onion/shortcuts.c | 51 +++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index a962876..0425109 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -29,6 +29,7 @@
 #include <stdarg.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <limits.h>
 #include <sys/stat.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -387,34 +388,56 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
     ok = 0;
     int fd_orig = open(orig, O_RDONLY);
     if (fd_orig < 0) {
-      ok = 1;
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
+      return 1;
     }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    // Copy to a file besides dest, so that dest is never half written.
+    char part[PATH_MAX];
+    const char *name = strrchr(dest, '/');
+    int dirlen = name ? name - dest + 1 : 0;
+    int fd_dest = -1, n = 0;
+    do {
+      if (snprintf(part, sizeof(part), "%.*s.onion-%d-%d", dirlen, dest,
+                   (int)getpid(), n++) >= sizeof(part)) {
+        errno = ENAMETOOLONG;
+        break;
+      }
+      fd_dest = open(part, O_WRONLY | O_CREAT | O_EXCL, 0666);
+    } while (fd_dest < 0 && errno == EEXIST);
     if (fd_dest < 0) {
-      ok = 1;
       ONION_ERROR("Could not open destination for writing (%s)",
                   strerror(errno));
+      close(fd_orig);
+      return 1;
     }
-    if (ok == 0) {
-      char tmp[4096];
-      int r;
-      while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
+    char tmp[4096];
+    ssize_t r;
+    while (ok == 0 && (r = read(fd_orig, tmp, sizeof(tmp))) != 0) {
+      if (r < 0) {
+        ONION_ERROR("Error reading the origin file (%s)", strerror(errno));
+        ok = 1;
+      }
+      ssize_t pos = 0;
+      while (pos < r) {
+        ssize_t w = write(fd_dest, tmp + pos, r - pos);
+        if (w <= 0) {
           ONION_ERROR("Error writing to destination file (%s)",
                       strerror(errno));
           ok = 1;
           break;
         }
+        pos += w;
       }
     }
-    if (fd_orig >= 0) {
-      close(fd_orig);
+    close(fd_orig);
+    if (close(fd_dest) != 0)
+      ok = 1;
+    if (ok == 0)
+      ok = rename(part, dest);
+    if (ok == 0)
       unlink(orig);
-    }
-    if (fd_dest >= 0)
-      close(fd_dest);
+    else
+      unlink(part);
   }
   return ok;
 }
-- 
2.43.0


From 19156c0b76e8990f855523591fdb48bf9619e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 066/120] fix: OCS_FORBIDDEN closed the connection with no
 response

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index d69e63b..ff27f89 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -592,7 +592,8 @@ onion_connection_status onion_request_process(onion_request * req) {
     if (hs >= 0)
       hs = OCS_CLOSE_CONNECTION;
   } else if (hs == OCS_INTERNAL_ERROR ||
-             hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+             hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED ||
+             hs == OCS_FORBIDDEN) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 774fe99f7c83e734456878113b5137c2db7ae039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 067/120] fix: an error after some data was written added an
 error page to the response

---
 src/onion/handler.c |  4 ++++
 src/onion/request.c | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..5764f33 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -67,6 +67,10 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
       res = handler->handler(handler->priv_data, request, response);
       ONION_DEBUG0("Result: %d", res);
       if (res) {
+        // On errors an error page goes instead of the pending data.
+        if (res == OCS_INTERNAL_ERROR || res == OCS_NOT_IMPLEMENTED
+            || res == OCS_FORBIDDEN)
+          return res;
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
             && response->buffer_pos < sizeof(response->buffer))
diff --git a/src/onion/request.c b/src/onion/request.c
index ff27f89..ed8056c 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -594,6 +594,8 @@ onion_connection_status onion_request_process(onion_request * req) {
   } else if (hs == OCS_INTERNAL_ERROR ||
              hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED ||
              hs == OCS_FORBIDDEN) {
+    // Nothing of what the handler may have written goes with the error page.
+    res->buffer_pos = 0;
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
@@ -603,8 +605,16 @@ onion_connection_status onion_request_process(onion_request * req) {
     if (hs == OCS_FORBIDDEN)
       req->flags |= OR_FORBIDDEN;
 
-    hs = onion_handler_handle(req->connection.listen_point->server->
-                              internal_error_handler, req, res);
+    if (res->flags & OR_HEADER_SENT) {  // Too late for the error page, leave it incomplete.
+      res->flags |= OR_SKIP_CONTENT;
+      res->flags &= ~OR_CHUNKED;
+      hs = OCS_CLOSE_CONNECTION;
+    } else {
+      onion_dict_remove(res->headers, "Content-Length");
+      res->flags &= ~OR_LENGTH_SET;
+      hs = onion_handler_handle(req->connection.listen_point->server->
+                                internal_error_handler, req, res);
+    }
   }
 
   if (hs == OCS_YIELD) {
-- 
2.43.0


From e6494e6c4942f8955164a653d1ac9d4eac749d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 068/120] fix: handlers after an url or path handler that did
 not answer got a cut path

---
 src/onion/handlers/path.c |  7 ++++++-
 src/onion/url.c           | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/path.c b/src/onion/handlers/path.c
index 53e27c0..e1805ea 100644
--- a/src/onion/handlers/path.c
+++ b/src/onion/handlers/path.c
@@ -54,7 +54,12 @@ int onion_handler_path_handler(onion_handler_path_data * d,
 
   onion_request_advance_path(request, match[0].rm_eo);
 
-  return onion_handler_handle(d->inside, request, response);
+  const char *fullpath = onion_request_get_fullpath(request);
+  int ret = onion_handler_handle(d->inside, request, response);
+  if (ret == OCS_NOT_PROCESSED && onion_request_get_fullpath(request) == fullpath)      // the next handler needs the path as it was
+    onion_request_advance_path(request,
+                               path - onion_request_get_path(request));
+  return ret;
 }
 
 void onion_handler_path_delete(void *data) {
diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..46deee3 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -61,6 +61,19 @@ struct onion_url_data_t {
 
 //typedef struct onion_url_data_t onion_url_data; // already at types-internal.h
 
+/// Calls the inside level. If nobody answers there, others will need the path as it was.
+static int onion_url_handle_inside(onion_url_data * d, const char *path,
+                                   onion_request * request,
+                                   onion_response * response) {
+  const char *fullpath = request->fullpath;
+  onion_connection_status ret =
+      onion_handler_handle(d->inside, request, response);
+  if (ret == OCS_NOT_PROCESSED && request->fullpath == fullpath)
+    onion_request_advance_path(request,
+                               path - onion_request_get_path(request));
+  return ret;
+}
+
 /**
  * @short Performs the real request: checks if its for me, and then calls the inside level.
  * @ingroup url
@@ -80,7 +93,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
         ONION_DEBUG0("Ok, simple match.");
 
         onion_request_advance_path(request, strlen(next->str));
-        return onion_handler_handle(next->inside, request, response);
+        return onion_url_handle_inside(next, path, request, response);
       }
     } else
         if (regexec
@@ -104,7 +117,7 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
 
-      return onion_handler_handle(next->inside, request, response);
+      return onion_url_handle_inside(next, path, request, response);
     }
 
     next = next->next;
-- 
2.43.0


From 9a1b5fded21240fb2a1f4679b2a1c9e31715cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 069/120] fix: groups of the url regexps after one that did not
 match, and hidden by the query

---
 src/onion/url.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 46deee3..495cac2 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -109,10 +109,10 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
-          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
+          onion_dict_add(reqheader, tmpn, tmp,
+                         OD_DUP_KEY | OD_FREE_VALUE | OD_REPLACE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From db89f272427aed7843adbbb2c749d4bd54cd5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 070/120] fix: internal redirects freed the path the query and
 the new url may point to

---
 src/onion/shortcuts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 0425109..1a2d188 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -47,6 +47,7 @@
 #include "mime.h"
 #include "types_internal.h"
 #include "low.h"
+#include "ptr_list.h"
 
 #ifndef O_CLOEXEC
 #define O_CLOEXEC 0
@@ -132,7 +133,8 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
-  onion_low_free(req->fullpath);
+  // The query, and maybe newurl, point into the old path.
+  req->free_list = onion_ptr_list_add(req->free_list, req->fullpath);
   req->fullpath = req->path = onion_low_strdup(newurl);
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
-- 
2.43.0


From 0bf52e104b0c684d832a52f0f5bf1d07419a6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 071/120] fix: leak of the default error handler when there is
 other

---
 src/onion/onion.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index e6e7ef9..c191fda 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -680,6 +680,10 @@ onion_handler *onion_get_root_handler(onion * server) {
  * @ingroup onion
  */
 void onion_set_internal_error_handler(onion * server, onion_handler * handler) {
+  onion_handler *old = server->internal_error_handler;
+  if (old && old != handler
+      && old->handler == (onion_handler_handler) onion_default_error)
+    onion_handler_free(old);
   server->internal_error_handler = handler;
 }
 
-- 
2.43.0


From b195fc876b6b1daaac43eb6363f796b78aedf989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:48 +0000
Subject: [PATCH 072/120] fix: an Authorization header with just Basic was read
 past its end

---
 src/onion/handlers/auth_pam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..a537d66 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,7 +58,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
+  if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
     auth = onion_base64_decode(&o[6], NULL);
     username = auth;
-- 
2.43.0


From 7824e2b0986684043dff5fc88c2d09f360482339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:48 +0000
Subject: [PATCH 073/120] fix: length of the unauthorized page and of its realm

---
 src/onion/handlers/auth_pam.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index a537d66..c84b6f3 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -91,14 +91,16 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
-  sprintf(temp, "Basic realm=\"%s\"", d->realm);
+  size_t l = strlen(d->realm) + sizeof("Basic realm=\"\"");
+  char *temp = onion_low_scalar_malloc(l);
+  snprintf(temp, l, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
+  onion_low_free(temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
-  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED));
+  onion_response_set_length(res, sizeof(RESPONSE_UNAUTHORIZED) - 1);
 
   onion_response_write(res, RESPONSE_UNAUTHORIZED,
-                       sizeof(RESPONSE_UNAUTHORIZED));
+                       sizeof(RESPONSE_UNAUTHORIZED) - 1);
   return OCS_PROCESSED;
 }
 
-- 
2.43.0


From 56cc04d686030f206b0df362c78c14f27645f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:48 +0000
Subject: [PATCH 074/120] fix: who logged in with a pam service had access to
 what others protect

---
 src/onion/handlers/auth_pam.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index c84b6f3..40f28d4 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -42,6 +42,7 @@ int authorize(const char *pamname, const char *username, const char *password);
 struct onion_handler_auth_pam_data_t {
   char *realm;
   char *pamname;
+  char *logged_in;              ///< Session key of those who logged in using this pamname
   onion_handler *inside;
 };
 
@@ -51,7 +52,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
                                    onion_request * request,
                                    onion_response * res) {
   /// Use session to know if already logged in, so do not mess with PAM so often.
-  if (onion_request_get_session(request, "pam_logged_in"))
+  if (onion_request_get_session(request, d->logged_in))
     return onion_handler_handle(d->inside, request, res);
 
   const char *o = onion_request_get_header(request, "Authorization");
@@ -81,6 +82,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
       onion_dict_add(session, "username", username, OD_REPLACE | OD_DUP_VALUE);
       onion_dict_add(session, "pam_logged_in", username,
                      OD_REPLACE | OD_DUP_VALUE);
+      onion_dict_add(session, d->logged_in, username, OD_REPLACE | OD_DUP_ALL);
       onion_dict_unlock(session);
 
       onion_low_free(auth);
@@ -106,6 +108,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
 
 void onion_handler_auth_pam_delete(onion_handler_auth_pam_data * d) {
   onion_low_free(d->pamname);
+  onion_low_free(d->logged_in);
   onion_low_free(d->realm);
   onion_handler_free(d->inside);
   onion_low_free(d);
@@ -126,6 +129,9 @@ onion_handler *onion_handler_auth_pam(const char *realm, const char *pamname,
   priv_data->inside = inside_level;
   priv_data->pamname = onion_low_strdup(pamname);
   priv_data->realm = onion_low_strdup(realm);
+  size_t l = sizeof("pam_logged_in:") + strlen(pamname);
+  priv_data->logged_in = onion_low_scalar_malloc(l);
+  snprintf(priv_data->logged_in, l, "pam_logged_in:%s", pamname);
 
   onion_handler *ret =
       onion_handler_new((onion_handler_handler) onion_handler_auth_pam_handler,
-- 
2.43.0


From 0eefcabd04968d7301bcfcfa261166213bc5c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:40 +0000
Subject: [PATCH 075/120] fix: an Authorization header that is not base64
 crashed the server

---
 src/onion/handlers/auth_pam.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 40f28d4..e8b3614 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -62,15 +62,17 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   if (o && strncmp(o, "Basic ", 6) == 0) {
     //fprintf(stderr,"auth: '%s'\n",&o[6]);
     auth = onion_base64_decode(&o[6], NULL);
-    username = auth;
-    int i = 0;
-    while (auth[i] != '\0' && auth[i] != ':')
-      i++;
-    if (auth[i] == ':') {
-      auth[i] = '\0';           // so i have user ready
-      passwd = &auth[i + 1];
-    } else
-      passwd = NULL;
+    if (auth) {                 // NULL if it was not base64
+      username = auth;
+      int i = 0;
+      while (auth[i] != '\0' && auth[i] != ':')
+        i++;
+      if (auth[i] == ':') {
+        auth[i] = '\0';         // so i have user ready
+        passwd = &auth[i + 1];
+      } else
+        passwd = NULL;
+    }
   }
   // I have my data, try to authorize
   if (username && passwd) {
-- 
2.43.0


From fd05d173caef7272344c50ca1b166231d3e12fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 076/120] fix: base64 decode read past the end of data followed
 by spaces

---
 src/onion/codecs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 06025b8..f089344 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -95,6 +95,11 @@ char *onion_base64_decode(const char *orig, int *length) {
   // We use pointers all along. endI is exactly the last char. For an empty string is the one before I.
   const char *I=orig, *endI=orig + strlen(orig) - 1;
 
+  // The spaces at the end are not data, there is nothing to decode after them
+  while (endI > I && (*endI == '\n' || *endI == '\r' || *endI == ' ')){
+    endI--;
+  }
+
   if (I >= endI){
     return NULL;
   }
@@ -118,6 +123,7 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    ret[0] = 0;
     return ret;
   }
 
-- 
2.43.0


From 104af294afb2145d9ecc5da02fefcf673cd0ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:46 +0000
Subject: [PATCH 077/120] fix: store the session before the response is
 complete also when handlers are nested

---
 src/onion/handler.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 5764f33..bd9ebad 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -71,11 +71,13 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
         if (res == OCS_INTERNAL_ERROR || res == OCS_NOT_IMPLEMENTED
             || res == OCS_FORBIDDEN)
           return res;
-        // write pending data.
-        if (!(response->flags & OR_HEADER_SENT)
-            && response->buffer_pos < sizeof(response->buffer))
-          onion_response_set_length(response, response->buffer_pos);
-        onion_response_flush(response);
+        // write pending data. The end of the response goes when it is freed, once the session is stored.
+        if (!(response->flags & OR_HEADER_SENT)) {
+          if (response->buffer_pos < sizeof(response->buffer))
+            onion_response_set_length(response, response->buffer_pos);
+          onion_response_flush(response);
+        } else if (res == OCS_WEBSOCKET || res == OCS_YIELD)
+          onion_response_flush(response);
         if (res == OCS_WEBSOCKET) {
           if (request->websocket)
             return onion_websocket_call(request->websocket);
-- 
2.43.0


From 5baf878296eadd43b8f7ebd2c4439268ae533498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:06 +0000
Subject: [PATCH 078/120] fix: a copy of a case insensitive dict was case
 sensitive

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..b85ffb0 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From 94ea92b47a86eb10e3135d925967de1d09038cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 079/120] fix: removing from a dict with repeated keys lost
 other entry and left one dangling

---
 src/onion/dict.c | 77 +++++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index b85ffb0..39db6fa 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -389,6 +389,47 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// Makes the subtree an AA tree again after something below was removed
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Takes the first node out of the subtree, leaving its data at data
+static onion_dict_node *onion_dict_node_take_first(onion_dict_node * node,
+                                                   onion_dict_node_data * data) {
+  if (!node->left) {
+    onion_dict_node *right = node->right;
+    *data = node->data;
+    onion_low_free(node);
+    return right;
+  }
+  node->left = onion_dict_node_take_first(node->left, data);
+  return onion_dict_node_rebalance(node);
+}
+
+/// Takes the last node out of the subtree, leaving its data at data
+static onion_dict_node *onion_dict_node_take_last(onion_dict_node * node,
+                                                  onion_dict_node_data * data) {
+  if (!node->right) {
+    onion_dict_node *left = node->left;
+    *data = node->data;
+    onion_low_free(node);
+    return left;
+  }
+  node->right = onion_dict_node_take_last(node->right, data);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
@@ -409,37 +450,13 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
       onion_low_free(node);
       return NULL;
     }
-    if (node->left == NULL) {
-      onion_dict_node *t = node->right; // Get next key node
-      while (t->left)
-        t = t->left;
-      //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
-      //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
-    } else {
-      onion_dict_node *t = node->left;  // Get prev key node
-      while (t->right)
-        t = t->right;
-
-      memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
-      //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
-    }
-  }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
+    // By position, as there may be more nodes with the same key
+    if (node->left == NULL)
+      node->right = onion_dict_node_take_first(node->right, &node->data);
+    else
+      node->left = onion_dict_node_take_last(node->left, &node->data);
   }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
-- 
2.43.0


From d620ae6105d4870ca45cde0cede120e0497f58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 080/120] fix: onion_dict_remove told it had removed what was
 not there

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 39db6fa..7720193 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -467,6 +467,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key);
   return 1;
 }
-- 
2.43.0


From a6435b6f14a37bc27d4710bc3de7264fd49bc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 081/120] fix: a connection that could not be polled stayed
 open forever

---
 src/onion/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 2632e35..d87ecc5 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -407,7 +407,8 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
   ev.data.ptr = el;
   if (epoll_ctl(poller->fd, EPOLL_CTL_ADD, el->fd, &ev) < 0) {
     ONION_ERROR("Error add descriptor to listen to. %s", strerror(errno));
-    return 1;
+    onion_poller_remove(poller, el->fd);        // Nobody would ever look at it again
+    return -1;
   }
   onion_poller_timer_check(poller, el->timeout_limit);
 
-- 
2.43.0


From d5a9cc35296b20727b11979fe2dfb0de7287e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 082/120] fix: files were sent without header when writing the
 header failed

---
 src/onion/shortcuts.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 1a2d188..5fffacc 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -273,7 +273,10 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     size_t left = length;
 #ifdef USE_SENDFILE
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
-      onion_response_write(res, NULL, 0);
+      if (onion_response_flush(res) < 0) {      // No header, so no data
+        close(fd);
+        return OCS_CLOSE_CONNECTION;
+      }
       ONION_DEBUG("Using sendfile");
       while (left > 0) {
         ssize_t r = sendfile(request->connection.fd, fd, NULL, left);
-- 
2.43.0


From a4b67eaa12ccb574b46b4efe0c5a14d3745d855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 083/120] fix: a request without protocol version crashed the
 server at url patterns with groups

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 342f5f1..26bf384 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -981,9 +981,9 @@ static int onion_request_parse_query(onion_request * req) {
   }
   *p = '\0';
   onion_unquote_inplace(req->fullpath);
+  req->GET = onion_dict_new();
   if (have_query) {             // There are querys.
     p++;
-    req->GET = onion_dict_new();
     onion_request_parse_query_to_dict(req->GET, p);
   }
   return 1;
-- 
2.43.0


From 748cf90dfb967b158679c08b77187ce6c6f7cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 084/120] fix: base64 decode read outside of its table on bytes
 that are not ASCII

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index f089344..08809e3 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -73,7 +73,7 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
   }
   // ONION_DEBUG("GET %c", (char)c);
   (*I)++;
-  return db64[c];
+  return c < sizeof(db64) ? db64[c] : 255;
 }
 
 /**
-- 
2.43.0


From 46f18264b8be45e472466a318c0a1ae2bfecfc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:42 +0000
Subject: [PATCH 085/120] fix: onion_get_listen_point read past the end of the
 list

Asked for a listen point that does not exist it should return NULL, but it never
checked the mark at the end.
---
 src/onion/onion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index c191fda..f268be6 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -743,7 +743,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From c58c07d31a394b11736148f0e0c6daa13acec37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 086/120] fix: the Diffie-Hellman parameters leaked when they
 could not be generated

---
 src/onion/https.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/https.c b/src/onion/https.c
index 39e1bcf..7f3085e 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -135,6 +135,7 @@ onion_listen_point *onion_https_new() {
   if (e < 0) {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
+    gnutls_dh_params_deinit(https->dh_params);
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
-- 
2.43.0


From ba8b41207f19b6a6ed81de9efbe32704fe10275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 087/120] fix: a C++ handler that throws anything not derived
 from std::exception ended the process

---
 src/bindings/cpp/handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/cpp/handler.cpp b/src/bindings/cpp/handler.cpp
index 13c89c3..07081a6 100644
--- a/src/bindings/cpp/handler.cpp
+++ b/src/bindings/cpp/handler.cpp
@@ -65,6 +65,10 @@ static onion_connection_status onion_handler_call_operator(void *ptr,
     ONION_ERROR("Catched exception: %s", e.what());
     return OCS_INTERNAL_ERROR;
   }
+  catch( ...) {
+    ONION_ERROR("Catched unknown exception");
+    return OCS_INTERNAL_ERROR;
+  }
 }
 
 static void onion_handler_delete_operator(void *ptr) {
-- 
2.43.0


From cfa818558c989dfef7c111052a6ec34f286e4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 088/120] fix: the C++ HttpNotFound exception answered 500

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From 2f3fc4c9a30eae7396b695ae7f26dda14979b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 089/120] fix: a C++ Dict read from JSON was never freed

---
 src/bindings/cpp/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 110c4bf..193001a 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -130,7 +130,7 @@ std::string Onion::Dict::toJSON() const noexcept {
 }
 
 Onion::Dict Onion::Dict::fromJSON(const std::string & jsondata)noexcept {
-  return Dict(onion_dict_from_json(jsondata.c_str()));
+  return Dict(onion_dict_from_json(jsondata.c_str()), true);
 }
 
 Onion::Dict & Onion::Dict::merge(const Dict & other)noexcept {
-- 
2.43.0


From 9f1c69f88f254a768319adbebb0b81fbf38da4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 090/120] fix: C++ Dict was used after freed when assigned to
 itself, and copies of a missing subdict crashed

---
 src/bindings/cpp/dict.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 193001a..5cab878 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -76,20 +76,24 @@ Onion::Dict::Dict(const Dict & d)
 d.ptr.get(), &onion_dict_free}
 
 {
-  onion_dict_dup(ptr.get());
+  if (ptr)
+    onion_dict_dup(ptr.get());
 }
 
 Onion::Dict & Onion::Dict::operator=(const Dict & o) {
+  // First the new reference, as it may be the same dict
+  if (o.ptr)
+    onion_dict_dup(o.ptr.get());
   ptr = internal_pointer {
   o.ptr.get(), &onion_dict_free};
-  onion_dict_dup(o.ptr.get());
   return *this;
 }
 
 Onion::Dict & Onion::Dict::operator=(onion_dict * o) {
+  if (o)
+    onion_dict_dup(o);
   ptr = internal_pointer {
   o, &onion_dict_free};
-  onion_dict_dup(ptr.get());
   return *this;
 }
 
-- 
2.43.0


From 4bf4e04409e9bae2aeda601e08ff7f9a03f48321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:48 +0000
Subject: [PATCH 091/120] fix: moving a C++ Dict lock crashed

---
 src/bindings/cpp/dict.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.hpp b/src/bindings/cpp/dict.hpp
index 77c7c1c..c60177f 100644
--- a/src/bindings/cpp/dict.hpp
+++ b/src/bindings/cpp/dict.hpp
@@ -77,7 +77,8 @@ namespace Onion {
                         /**
 			 * @short Automatically releases a lock when the scope is exited.
 			 */ ~lock() {
-        onion_dict_unlock(dict);
+        if (dict)
+          onion_dict_unlock(dict);
       }
  private:
       onion_dict * dict;
-- 
2.43.0


From 26156e69e38c317a955a2a5660376d42529e3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:04 +0000
Subject: [PATCH 092/120] fix: the C++ Mime::set gave away the reference of the
 caller, and both freed it

---
 src/bindings/cpp/mime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 5dc65b5..3456400 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -34,7 +34,7 @@ namespace Onion {
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
     static void set(Onion::Dict & dict) {
-      onion_mime_set(dict.c_handler());
+      onion_mime_set(onion_dict_dup(dict.c_handler()));
     }
                 /**
 		 * @short Get the mime type based on the file name.
-- 
2.43.0


From 85f330414c5110ca3863bab70306bf314b9d809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:04 +0000
Subject: [PATCH 093/120] fix: the C++ Request::clientDescription threw when
 there is no description

---
 src/bindings/cpp/request.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index bc20a37..b322eb2 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -183,7 +183,8 @@ namespace Onion {
                 /**
 		 * @short Returns a string with the client description
 		 */ const std::string clientDescription() const {
-      return onion_request_get_client_description(ptr);
+      const char *r = onion_request_get_client_description(ptr);
+       return r ? r : "";
     }
                 /**
 		 * @short Returns the language code for the current request.
-- 
2.43.0


From 5eac0e39917d63be2d99764afbb18b8c72bb426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 094/120] fix: a signal that interrupted a read or a write
 closed the connection, cutting its response

---
 src/onion/http.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/onion/http.c b/src/onion/http.c
index 1726e22..03715b6 100644
--- a/src/onion/http.c
+++ b/src/onion/http.c
@@ -22,6 +22,7 @@
 */
 
 #include <stdlib.h>
+#include <errno.h>
 
 #include "types.h"
 #include "http.h"
@@ -67,7 +68,11 @@ onion_listen_point *onion_http_new() {
  * @ingroup http
  */
 static ssize_t onion_http_read(onion_request * con, char *data, size_t len) {
-  return read(con->connection.fd, data, len);
+  ssize_t r;
+  do {
+    r = read(con->connection.fd, data, len);
+  } while (r < 0 && errno == EINTR);
+  return r;
 }
 
 /**
@@ -99,5 +104,9 @@ int onion_http_read_ready(onion_request * con) {
  * @ingroup http
  */
 ssize_t onion_http_write(onion_request * con, const char *data, size_t len) {
-  return write(con->connection.fd, data, len);
+  ssize_t w;
+  do {
+    w = write(con->connection.fd, data, len);
+  } while (w < 0 && errno == EINTR);
+  return w;
 }
-- 
2.43.0


From 8a176c422224fce5adf8676e17390b4559f335f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 095/120] fix: a ; or a = in the quoted name or filename of a
 multipart part altered it

---
 src/onion/request_parser.c | 63 +++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 26bf384..dcdf836 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -565,22 +565,10 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
                                                                 onion_buffer *
                                                                 data);
 
-static onion_connection_status parse_POST_multipart_content_type(onion_request *
-                                                                 req,
-                                                                 onion_buffer *
-                                                                 data) {
-  onion_token *token = req->parser_data;
-  int res = token_read_until(token, data, ';');
-
-  if (res <= 1000)
-    return res;
-
-  //ONION_DEBUG("Got content type %s",token->str);
-
-  onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
+/// Sets the name or filename of the part from one parameter of its Content-Disposition
+static onion_connection_status set_POST_multipart_parameter
+    (onion_multipart_buffer * multipart, const char *name) {
+  if (strncmp(name, "filename=", 9) == 0) {
     int l = strlen(name + 9);
     if (l + 1 > multipart->post_total_size) {
       ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
@@ -598,8 +586,7 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
     }
     ONION_DEBUG0("Set filename '%s'", multipart->filename);
   } else {
-    name = strstr(token->str, "name=");
-    if (name) {
+    if (strncmp(name, "name=", 5) == 0) {
       int l = strlen(name + 5);
       if (l + 1 > multipart->post_total_size) {
         ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
@@ -618,10 +605,44 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
     }
   }
 
-  if (res == STRING_NEW_LINE) {
-    req->parser = parse_POST_multipart_headers_key;
-    return OCS_NEED_MORE_DATA;
+  return OCS_NEED_MORE_DATA;
+}
+
+static onion_connection_status parse_POST_multipart_content_type(onion_request *
+                                                                 req,
+                                                                 onion_buffer *
+                                                                 data) {
+  onion_token *token = req->parser_data;
+  int res = token_read_until(token, data, '\n');
+
+  if (res <= 1000)
+    return res;
+
+  //ONION_DEBUG("Got content type %s",token->str);
+
+  onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
+  char *param = token->str;
+  while (param) {
+    while (is_space(*param))
+      param++;
+    // Parameters are separated by ;, but when it is inside quotes
+    char *end;
+    int quoted = 0;
+    for (end = param; *end && (quoted || *end != ';'); end++) {
+      if (*end == '\\' && end[1] == '"')
+        end++;
+      else if (*end == '"')
+        quoted = !quoted;
+    }
+    char *next = *end ? end + 1 : NULL;
+    *end = '\0';
+    onion_connection_status r = set_POST_multipart_parameter(multipart, param);
+    if (r != OCS_NEED_MORE_DATA)
+      return r;
+    param = next;
   }
+
+  req->parser = parse_POST_multipart_headers_key;
   return OCS_NEED_MORE_DATA;
 }
 
-- 
2.43.0


From c7a876cfc11bb4991d1e46e82e722438fe2fc6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:28 +0000
Subject: [PATCH 096/120] fix: reading a truncated or malformed JSON text read
 past its end

---
 src/onion/codecs.c | 2 +-
 src/onion/dict.c   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 08809e3..81ba66d 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -701,7 +701,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {               // \0, expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
diff --git a/src/onion/dict.c b/src/onion/dict.c
index 7720193..edfbee5 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -772,6 +772,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From cfb42b119ad356b93913bf5c18983c79ef3f143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:41 +0000
Subject: [PATCH 097/120] fix: setting a certificate when TLS could not be
 initialised dereferenced NULL and lost the listen point

---
 src/onion/onion.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index f268be6..1967122 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -914,7 +914,8 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
                              const char *filename, va_list va) {
 #ifdef HAVE_GNUTLS
   if (!onion->listen_points) {
-    onion_add_listen_point(onion, NULL, NULL, onion_https_new());
+    if (onion_add_listen_point(onion, NULL, NULL, onion_https_new()) < 0)
+      return -1;
   } else {
     onion_listen_point *first_listen_point = onion->listen_points[0];
     if (first_listen_point->write != onion_https_write) {
@@ -924,17 +925,18 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
         return -1;
       }
       ONION_DEBUG("Promoting from HTTP to HTTPS");
-      char *port = first_listen_point->port
-          ? onion_low_strdup(first_listen_point->port) : NULL;
-      char *hostname = first_listen_point->hostname
-          ? onion_low_strdup(first_listen_point->hostname) : NULL;
-      onion_listen_point_free(first_listen_point);
       onion_listen_point *https = onion_https_new();
-      https->server = onion;
       if (NULL == https) {
         ONION_ERROR
             ("Could not promote from HTTP to HTTPS. Certificate not set.");
+        return -1;
       }
+      https->server = onion;
+      char *port = first_listen_point->port
+          ? onion_low_strdup(first_listen_point->port) : NULL;
+      char *hostname = first_listen_point->hostname
+          ? onion_low_strdup(first_listen_point->hostname) : NULL;
+      onion_listen_point_free(first_listen_point);
       https->port = port;
       https->hostname = hostname;
       onion->listen_points[0] = https;
-- 
2.43.0


From e22cf7173e0a1fa1aca9c1eaac2fa5b1925e1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:35 +0000
Subject: [PATCH 098/120] fix: mime types of extensions longer than 7
 characters, or at a last line without new line, were lost

---
 src/onion/mime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index a0c1d10..9a28fdd 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -114,7 +114,7 @@ static onion_dict *onion_mime_read() {
     return dict;
   }
   char mimetype[128];
-  char extension[8];
+  char extension[64];
   int mode = 0;                 // 0 mimetype, 1 extension
   int i = 0;
   int c;
@@ -147,6 +147,7 @@ static onion_dict *onion_mime_read() {
         if (mode == 0) {
           if (i >= sizeof(mimetype) - 1) {
             while ((c = getc(fd)) >= 0 && c != '\n') ;
+            i = 0;
           } else
             mimetype[i++] = c;
         } else {
@@ -163,6 +164,10 @@ static onion_dict *onion_mime_read() {
       }
     }
   }
+  if (mode == 1 && i != 0) {    // No new line at the end of the file
+    extension[i] = 0;
+    onion_dict_add(dict, extension, mimetype, OD_DUP_ALL);
+  }
   fclose(fd);
 
   ONION_DEBUG("I know %d mime types", onion_dict_count(dict));
-- 
2.43.0


From 913d9bc301543ea782979fc3adc2937a1891d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 099/120] fix: a log message that just did not fit had a NUL
 byte in place of its last character

---
 src/onion/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/log.c b/src/onion/log.c
index d034652..d2da613 100644
--- a/src/onion/log.c
+++ b/src/onion/log.c
@@ -186,7 +186,7 @@ void onion_log_stderr(onion_log_level level, const char *filename, int lineno,
   {
     size_t maxsize = sizeof(strout) - strout_length - 6;
     size_t total_size = vsnprintf(strout + strout_length, maxsize, fmt, ap);
-    if (total_size > maxsize) { // Message too long, truncates it
+    if (total_size >= maxsize) { // Message too long, truncates it
       strout_length += maxsize;
       strout[strout_length - 1] = '.';
       strout[strout_length - 2] = '.';
-- 
2.43.0


From d87f1804911dbef7e1e4665844a781aee88b3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 100/120] fix: the Date header was in local time, HTTP dates
 are always GMT

---
 src/onion/response.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 015c2c0..a7632f4 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -104,8 +104,8 @@ onion_response *onion_response_new(onion_request * req) {
       ONION_DEBUG("Recalculating date header");
       char current_datetime[200];
 
-      if (localtime_r(&t, &tmp) == NULL) {
-        perror("localtime");
+      if (gmtime_r(&t, &tmp) == NULL) { // HTTP dates are always GMT
+        perror("gmtime");
         exit(EXIT_FAILURE);
       }
 
-- 
2.43.0


From 07be6e789bf4ab9fedae848218271fdd39da8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 101/120] fix: cookies made at the same time in two threads
 could get the expiration of each other

---
 src/onion/response.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index a7632f4..7d71957 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -647,12 +647,12 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
         snprintf(data + pos, sizeof(data) - pos,
                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
+    localtime_r(&t, &tmp);
     pos +=
         strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+                 "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp);
   }
   if (path)
     pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
-- 
2.43.0


From 84a364e3aaf7b684fcccbfed6b946aefef47afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:47 +0000
Subject: [PATCH 102/120] fix: a cookie longer than its buffer was written past
 its end

---
 src/onion/response.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 7d71957..f9f56f5 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -640,43 +640,42 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *path, const char *domain,
                                int flags) {
   char data[4096];
+  char expires[64] = "";
+  const char *samesite = "";
   int pos;
-  pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
-    pos +=
-        snprintf(data + pos, sizeof(data) - pos,
-                 "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
+    strcpy(expires, "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
     struct tm tmp;
     time_t t = time(NULL) + validity_t;
     localtime_r(&t, &tmp);
-    pos +=
-        strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", &tmp);
+    if (strftime
+        (expires, sizeof(expires), "; expires=%a, %d %b %Y %H:%M:%S %Z",
+         &tmp) == 0)
+      expires[0] = '\0';
   }
-  if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
-  if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
-  if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
-  if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    samesite = "; SameSite=None";
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    samesite = "; SameSite=Lax";
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    samesite = "; SameSite=Strict";
     break;
   default:
     break;
   }
 
+  pos = snprintf(data, sizeof(data), "%s=%s%s%s%s%s%s%s%s%s",
+                 cookiename, cookievalue, expires,
+                 path ? "; path=" : "", path ? path : "",
+                 domain ? "; domain=" : "", domain ? domain : "",
+                 (flags & OC_HTTP_ONLY) ? "; HttpOnly" : "",
+                 (flags & OC_SECURE) ? "; Secure" : "", samesite);
+
   if (pos >= sizeof(data)) {
     ONION_WARNING("Cookie too long to be constructed. Not added to response.");
     return false;
-- 
2.43.0


From 17cf0f8cdd5e5261afaff8f6bf7e380412c00148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 103/120] fix: adding a second cookie to a response removed the
 first one

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index f9f56f5..1ca9b0d 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -681,7 +681,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL); // No replace, there may be other cookies
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From 3cea04787d57f85118b4a439b3199fd2174cbb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:20 +0000
Subject: [PATCH 104/120] fix: a copy of a text that needed no HTML quoting
 dereferenced NULL

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 81ba66d..d7d911a 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -531,7 +531,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 8f9962fc600e6cbf35853b8b81cba7d0a58814a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:58 +0000
Subject: [PATCH 105/120] fix: a comment at the end of the mime types file
 without new line altered the last extension

---
 src/onion/mime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index 9a28fdd..5963cc7 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -122,6 +122,8 @@ static onion_dict *onion_mime_read() {
   while ((c = getc(fd)) >= 0) {
     if (c == '#') {
       while ((c = getc(fd)) >= 0 && c != '\n') ;
+      if (c < 0)
+        break;
     }
     if (c == '\n') {
       if (mode == 1 && i != 0) {
-- 
2.43.0


From 7c94aa10dde9e3e90f17d0ee5e13c9ba21e41610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 106/120] fix: the C++ Request::languageCode freed with free
 what another allocator may have made

---
 src/bindings/cpp/request.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index b322eb2..de4ee00 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -199,7 +199,7 @@ namespace Onion {
        */
       const char *r = onion_request_get_language_code(ptr);
        std::string retval(r);
-       free(const_cast < char *>(r));
+       onion_low_free(const_cast < char *>(r));
        return retval;
     }
                 /**
-- 
2.43.0


From d7c92a074f82dc798e70d68f78b56a055d364001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 107/120] fix: a stopped server could accept the connections of
 another one

onion_listen_stop closed the listen file descriptors while threads of the
server could be about to accept on them. If other server of the same process
started to listen meanwhile, it could get the same file descriptor, and its
connections be accepted and answered by the stopped one. Now stopping shuts
them down, and they are closed when no thread uses them.
---
 src/onion/onion.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 1967122..1946abb 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -519,7 +519,8 @@ static int onion_listen_run(onion * o) {
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
-    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
+    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP)
+             && !(o->flags & O_STOPPING));
   } else {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
@@ -565,7 +566,7 @@ static int onion_listen_run(onion * o) {
       onion_poller_poll(o->poller);
 
     listen_points = o->listen_points;
-    while (*listen_points) {
+    while (*listen_points && !(o->flags & O_STOPPING)) {
       onion_listen_point *p = *listen_points;
       if (p->listenfd > 0) {
         ONION_DEBUG("Removing %d from poller", p->listenfd);
@@ -577,6 +578,11 @@ static int onion_listen_run(onion * o) {
 
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&o->mutex);
+#endif
+  // Nobody accepts anymore, so now they can be closed.
+  for (lp = o->listen_points; *lp; lp++)
+    onion_listen_point_listen_stop(*lp);
+#ifdef HAVE_PTHREADS
   if (o->threads)
     onion_low_free(o->threads);
   o->threads = NULL;
@@ -604,7 +610,12 @@ static bool onion_is_listen_thread(onion * o) {
 }
 #endif
 
-/// Closes the listen points and tells the threads to finish, but does not wait for them.
+/**
+ * Shuts down the listen points and tells the threads to finish, but does not wait for them.
+ *
+ * The file descriptors are not closed until no thread uses them (onion_listen_run), as they
+ * could be reused meanwhile and a thread of this server accept the connections of other.
+ */
 static void onion_listen_ask_stop(onion * server) {
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&server->mutex);
@@ -614,10 +625,11 @@ static void onion_listen_ask_stop(onion * server) {
     server->flags |= O_STOPPING;
     onion_listen_point **lp = server->listen_points;
     while (*lp) {
-      // Out of the poller before closing, as the file descriptor may be reused.
-      if (server->poller && !(server->flags & O_ONE) && (*lp)->listenfd >= 0)
-        onion_poller_remove(server->poller, (*lp)->listenfd);
-      onion_listen_point_listen_stop(*lp);
+      if ((*lp)->listenfd >= 0) {
+        if (server->poller && !(server->flags & O_ONE))
+          onion_poller_remove(server->poller, (*lp)->listenfd);
+        shutdown((*lp)->listenfd, SHUT_RDWR);
+      }
       lp++;
     }
     if (server->poller) {
-- 
2.43.0


From 88e9ce645c2b421261859cebee8083c7370b0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:33 +0000
Subject: [PATCH 108/120] fix: paths from realpath were freed with the
 functions of onion_low

---
 src/onion/handlers/exportlocal.c | 11 +++++------
 src/onion/handlers/webdav.c      |  6 ++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 8aec852..bd34fef 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -269,22 +269,21 @@ void onion_handler_export_local_set_footer(onion_handler * handler,
  * that localpath. Normal permissions apply.
  */
 onion_handler *onion_handler_export_local_new(const char *localpath) {
-  char *rp = realpath(localpath, NULL);
-  if (!rp) {
+  char realp[PATH_MAX];
+  if (!realpath(localpath, realp)) {
     ONION_ERROR("Cant calculate the realpath of the given directory (%s).",
                 localpath);
     return NULL;
   }
   struct stat st;
-  if (stat(rp, &st) != 0) {
-    ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
-    onion_low_free(rp);
+  if (stat(realp, &st) != 0) {
+    ONION_ERROR("Cant access to the exported directory/file (%s).", realp);
     return NULL;
   }
   onion_handler_export_local_data *priv_data =
       onion_low_malloc(sizeof(onion_handler_export_local_data));
 
-  priv_data->localpath = rp;
+  priv_data->localpath = onion_low_strdup(realp);
   priv_data->renderer_header = onion_handler_export_local_header_default;
   priv_data->renderer_footer = onion_handler_export_local_footer_default;
 
diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 83fd27e..bbc5aef 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -768,10 +768,8 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     }
   }
 
-  if (base)
-    onion_low_free(base);
-  if (file)
-    onion_low_free(file);
+  free(base);                   // From realpath, not from onion_low_malloc
+  free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From 6a6b76e0e95c783a39c7bf32add3a9f7e8564f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:59 +0000
Subject: [PATCH 109/120] fix: PAM handler looked in the session without its
 lock

---
 src/onion/handlers/auth_pam.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index e8b3614..e28909f 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -52,7 +52,11 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
                                    onion_request * request,
                                    onion_response * res) {
   /// Use session to know if already logged in, so do not mess with PAM so often.
-  if (onion_request_get_session(request, d->logged_in))
+  onion_dict *session = onion_request_get_session_dict(request);
+  onion_dict_lock_read(session);        // Other requests of this session may be writing in it
+  int logged_in = onion_dict_get(session, d->logged_in) != NULL;
+  onion_dict_unlock(session);
+  if (logged_in)
     return onion_handler_handle(d->inside, request, res);
 
   const char *o = onion_request_get_header(request, "Authorization");
@@ -79,7 +83,6 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     int ok = authorize(d->pamname, username, passwd);
 
     if (ok) {                   // I save the username at the session, so it can be accessed later.
-      onion_dict *session = onion_request_get_session_dict(request);
       onion_dict_lock_write(session);
       onion_dict_add(session, "username", username, OD_REPLACE | OD_DUP_VALUE);
       onion_dict_add(session, "pam_logged_in", username,
-- 
2.43.0


From bc975eab1a819cf9ba4b15284722db607509d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 110/120] fix: owner in directory listings could be the one of
 a concurrent listing

---
 src/onion/handlers/exportlocal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index bd34fef..7f53b35 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -193,14 +193,17 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
   struct dirent *fi;
   struct stat st;
   char temp[PATH_MAX];
-  struct passwd *pwd;
+  struct passwd *pwd, pwdbuf;
+  char pwdstr[1024];
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
     snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
     if (stat(temp, &st) != 0)   // Not there anymore, or goes nowhere.
       continue;
-    pwd = getpwuid(st.st_uid);
+    // Not getpwuid, other thread may be listing a directory too.
+    if (getpwuid_r(st.st_uid, &pwdbuf, pwdstr, sizeof(pwdstr), &pwd) != 0)
+      pwd = NULL;
 
     if (S_ISDIR(st.st_mode))
       onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
-- 
2.43.0


From 0ca6017b58a922dc924c944607046852076c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:35 +0000
Subject: [PATCH 111/120] fix: asset headers bigger than 4 kB lost declarations
 at each update

---
 tools/common/updateassets.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 35484d9..fcba4f8 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -137,24 +137,29 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   ret->tail = NULL;
 
   if (file) {
-    char buffer[4096];
+    char buffer[8192];
     int r = 0;
-    int o = 0;
+    int o = 0;                  // Bytes of an incomplete line at the start of the buffer
     int total = 0;
-    do {
-      r = fread(&buffer[o], 1, sizeof(buffer) - o, file);
-      int i;
-      o = 0;
-      for (i = 0; i < r; i++) {
+    while ((r = fread(&buffer[o], 1, sizeof(buffer) - 1 - o, file)) > 0) {
+      int i, start = 0;
+      for (i = o; i < o + r; i++) {
         if (buffer[i] == '\n') {
           buffer[i] = 0;
-          ONION_DEBUG("Read original line <%s>", &buffer[o]);
-          onion_assets_file_add_line(ret, &buffer[o]);
-          total += strlen(&buffer[o]);
-          o = i + 1;
+          ONION_DEBUG("Read original line <%s>", &buffer[start]);
+          onion_assets_file_add_line(ret, &buffer[start]);
+          total += strlen(&buffer[start]);
+          start = i + 1;
         }
       }
-    } while (r > 0);
+      o = i - start;
+      memmove(buffer, &buffer[start], o);
+    }
+    if (o > 0) {                // Last line, without new line
+      buffer[o] = 0;
+      onion_assets_file_add_line(ret, buffer);
+      total += o;
+    }
     onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
-- 
2.43.0


From b9edfba2d155f7478821f3e6516d94aa716c9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 112/120] fix: runs that updated the same asset header at the
 same time, or failed to write it, lost declarations

---
 tools/common/updateassets.c | 63 ++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index fcba4f8..d5511db 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -29,6 +29,11 @@
 #include <ctype.h>
 #include <libgen.h>
 #include <stdarg.h>
+#include <errno.h>
+#include <fcntl.h>
+#include <unistd.h>
+#include <sys/file.h>
+#include <sys/stat.h>
 
 #include "updateassets.h"
 
@@ -41,6 +46,8 @@ struct onion_assets_file_t {
   char **lines;
   int lines_count;
   int lines_capacity;
+  int lockfd;                   ///< Directory of the file, locked while it is being updated
+  int error;                    ///< Could not be read, so do not write it.
 };
 
 // Forces add.
@@ -128,8 +135,17 @@ void onion_assets_file_add_line(onion_assets_file * f, const char *line) {
 
 onion_assets_file *onion_assets_file_new(const char *filename) {
   onion_assets_file *ret = malloc(sizeof(onion_assets_file));
-  FILE *file = fopen(filename, "rt");
   ret->filename = strdup(filename);
+  ret->error = 0;
+  // Others may be updating it too, for example with make -j
+  char *dir = strdup(filename);
+  ret->lockfd = open(dirname(dir), O_RDONLY);
+  free(dir);
+  if (ret->lockfd >= 0)
+    flock(ret->lockfd, LOCK_EX);
+  FILE *file = fopen(filename, "rt");
+  if (!file && errno != ENOENT)
+    ret->error = 1;
   ret->lines_count = 0;
   ret->lines_capacity = 16;
   ret->lines = malloc(sizeof(const char *) * ret->lines_capacity);
@@ -160,6 +176,8 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
       onion_assets_file_add_line(ret, buffer);
       total += o;
     }
+    if (ferror(file))
+      ret->error = 1;
     onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
@@ -203,17 +221,8 @@ static void onion_assets_write_and_free_until_null(char **lines, FILE * file) {
   while (*ll) {
     char *l = *ll;
     ONION_DEBUG("Write: %s", l);
-    ssize_t length = strlen(l);
-    ssize_t wlength = fwrite(l, 1, length, file);
-    if (wlength != length) {
-      ONION_ERROR("Could not write all data. Aborting");
-      abort();
-    }
-    wlength = fwrite("\n", 1, 1, file);
-    if (wlength != 1) {
-      ONION_ERROR("Could not write all data. Aborting");
-      abort();
-    }
+    if (file)
+      fprintf(file, "%s\n", l);
     free(l);
     ++ll;
   }
@@ -223,11 +232,13 @@ static void onion_assets_write_and_free_until_null(char **lines, FILE * file) {
 int onion_assets_file_free(onion_assets_file * f) {
   onion_assets_file_add_line(f, NULL);  // Seal this lines list.
 
-  FILE *file = fopen(f->filename, "wt");
-  if (!file) {
-    ONION_WARNING("Could not open %s asset file for updating.", f->filename);
-    return -1;
-  }
+  // Write another, and replace it when finished: It has more than what is known here.
+  char *tmpname = malloc(strlen(f->filename) + 5);
+  sprintf(tmpname, "%s.tmp", f->filename);
+  FILE *file = f->error ? NULL : fopen(tmpname, "wt");
+  struct stat st;
+  if (file && stat(f->filename, &st) == 0)
+    chmod(tmpname, st.st_mode & 0777);
 
   if (f->head)
     onion_assets_write_and_free_until_null(f->head, file);
@@ -235,8 +246,22 @@ int onion_assets_file_free(onion_assets_file * f) {
   if (f->tail)
     onion_assets_write_and_free_until_null(f->tail, file);
 
-  assert(fclose(file) == 0);
+  int r = -1;
+  if (file) {
+    r = ferror(file) ? -1 : 0;
+    if (fclose(file) != 0)
+      r = -1;
+    if (r == 0)
+      r = rename(tmpname, f->filename);
+    if (r != 0)
+      unlink(tmpname);
+  }
+  if (r != 0)
+    ONION_ERROR("Could not update the asset file %s.", f->filename);
+  if (f->lockfd >= 0)
+    close(f->lockfd);
+  free(tmpname);
   free(f->filename);
   free(f);
-  return 0;
+  return r;
 }
-- 
2.43.0


From 008c4c95ffa1b8a2d06fd4643cb6e73257256d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 113/120] fix: opack and otemplate ended with success when they
 could not read or write everything

---
 tools/opack/opack.c         | 17 ++++++++++++-----
 tools/otemplate/otemplate.c | 20 ++++++++++++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..32fc251 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -99,12 +99,15 @@ int main(int argc, char **argv) {
     }
   }
 
-  if (outfile) {
-    fclose(outfd);
-  }
-  onion_assets_file_free(assets);
+  int error = ferror(outfd);
+  if (fclose(outfd) != 0)
+    error = 1;
+  if (error)
+    fprintf(stderr, "ERROR: Could not write all the output\n");
+  if (onion_assets_file_free(assets) != 0)
+    error = 1;
 
-  return 0;
+  return error ? 5 : 0;
 }
 
 /// Parses a filename to a function name (changes non allowed chars to _)
@@ -169,6 +172,10 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
     }
     l += r;
   }
+  if (ferror(fd)) {
+    fprintf(stderr, "ERROR: Could not read all of %s\n", filename);
+    exit(3);
+  }
   fprintf(outfd, "};\n");
 
   const char *mime_type = onion_mime_get(filename);
diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..ec20466 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -134,7 +134,8 @@ int main(int argc, char **argv) {
 
   onion_assets_file *assetsfile = onion_assets_file_new(assetfilename);
   int error = work(infilename, outfilename, assetsfile);
-  onion_assets_file_free(assetsfile);
+  if (onion_assets_file_free(assetsfile) != 0)
+    error = 1;
 
   list_free(plugin_search_path);
 
@@ -194,6 +195,7 @@ int work(const char *infilename, const char *outfilename,
 
   if (!status.in) {
     ONION_ERROR("Could not open in file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
@@ -207,6 +209,10 @@ int work(const char *infilename, const char *outfilename,
                     "  \n" "  %s(context);\n", status.blocks_init->id);
 
   parse_template(&status);
+  if (ferror(status.in)) {
+    ONION_ERROR("Could not read all of %s", infilename);
+    status.status = 1;
+  }
 
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
@@ -223,7 +229,8 @@ int work(const char *infilename, const char *outfilename,
   else
     status.out = fopen(outfilename, "wt");
   if (!status.out) {
-    ONION_ERROR("Could not open out file %s", infilename);
+    ONION_ERROR("Could not open out file %s", outfilename);
+    status.status = 1;
     goto work_end;
   }
 
@@ -253,8 +260,13 @@ int work(const char *infilename, const char *outfilename,
  work_end:
   if (status.in)
     fclose(status.in);
-  if (status.out)
-    fclose(status.out);
+  if (status.out) {
+    int error = ferror(status.out);
+    if (fclose(status.out) != 0 || error) {
+      ONION_ERROR("Could not write all of %s", outfilename);
+      status.status = 1;
+    }
+  }
   list_free(status.functions);
   list_free(status.function_stack);
   //list_free(status.blocks);
-- 
2.43.0


From 3553039d2f0a3e759dc8d30b79485e7412befe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 114/120] fix: opack named the functions of every directory
 after its first argument

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 32fc251..3f4f7a5 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -92,7 +92,7 @@ int main(int argc, char **argv) {
       struct stat st;
       stat(argv[i], &st);
       if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From b7087f5196140e0c18f83db873571708f63ea9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:31 +0000
Subject: [PATCH 115/120] fix: opack crashed if the directory could not be
 opened again

---
 tools/opack/opack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 3f4f7a5..84abcd0 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -231,6 +231,11 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
   fprintf(outfd, "  const char *path=onion_request_get_path(req);\n\n");
 
   dir = opendir(dirname);
+  if (!dir) {
+    fprintf(stderr, "ERROR: Could not open directory %s, check permissions.",
+            dirname);
+    exit(4);
+  }
   while ((de = readdir(dir))) {
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
-- 
2.43.0


From 5b3fbba7c084b3b539db887d5167bf2da5b6c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 116/120] fix: carriage returns in templates became new lines

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index d7d911a..9f9c29d 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -367,7 +367,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
-- 
2.43.0


From 17423e2bd0f9467a48832864e73b571971d430cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 117/120] fix: packed files returned how many bytes they wrote
 as their connection status

So an empty file was not found, and some sizes were a request to keep
reading or a websocket.
---
 tools/opack/opack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 84abcd0..02ca351 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -184,7 +184,8 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, %d);\n  return OCS_PROCESSED;\n}\n\n",
+          l);
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From 005e4d2554faaae1b030ab1fe68ce3152a8ceca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 118/120] fix: templates with a % in a tag, a double # at the
 end of a comment or a { at the end were garbled

---
 tools/otemplate/parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..d0b12a8 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
@@ -95,7 +95,7 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, VARIABLE);
+        status->mode = VARIABLE;        // Still the same variable
         add_char(status, '}');
         add_char(status, c);
       }
@@ -104,9 +104,11 @@ void parse_template(parser_status * status) {
       if (c == '}')
         set_mode(status, TEXT);
       else {
-        set_mode(status, END_TAG);
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {         // Still the same tag
+          add_char(status, c);
+          status->mode = TAG;
+        }
       }
       break;
     default:
@@ -115,6 +117,8 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  if (status->mode == BEGIN)    // It was just text
+    add_char(status, '{');
   set_mode(status, END);
 }
 
-- 
2.43.0


From 383d9486e0936279d5075921f59edc5446e4bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 119/120] fix: template lines longer than 4 kB were cut in the
 generated code

---
 tools/otemplate/functions.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..21799f1 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -222,6 +222,19 @@ function_data *function_pop(parser_status * st) {
   return p;
 }
 
+/**
+ * @short Returns a new string, as long as needed, from the format.
+ */
+static char *strdup_vprintf(const char *fmt, va_list ap) {
+  va_list ap2;
+  va_copy(ap2, ap);
+  int l = vsnprintf(NULL, 0, fmt, ap2);
+  va_end(ap2);
+  char *ret = malloc(l + 1);
+  vsnprintf(ret, l + 1, fmt, ap);
+  return ret;
+}
+
 /**
  * @short Adds some code to the top function
  */
@@ -230,11 +243,9 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = strdup_vprintf(fmt, ap);
   va_end(ap);
 
   if (use_orig_line_numbers) {
@@ -262,20 +273,20 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
  * @short Adds some code to a given function.
  */
 void function_add_code_f(struct function_data_t *f, const char *fmt, ...) {
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = strdup_vprintf(fmt, ap);
   va_end(ap);
 
   //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
 
   onion_block_add_str(f->code, tmp);
+  free(tmp);
 }
-- 
2.43.0


From a951034dd3cc825f2b0eeb2263e8a8cb3d1312fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 120/120] fix: requests to a template handler altered the
 context they share

Templates with blocks add them to the context, so several requests
at the same time could corrupt the dictionary.
---
 tools/otemplate/functions.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 21799f1..49f8b8a 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -131,8 +131,12 @@ void functions_write_main_code(parser_status * st) {
 
   fprintf(st->out, "\n\n"
           "onion_connection_status %s_handler_page(onion_dict *context, onion_request *req, onion_response *res){\n"
+          "  // Blocks are set at the context, and this one is of all the requests.\n"
+          "  onion_dict *c=context ? onion_dict_hard_dup(context) : NULL;\n"
           "\n"
-          "  %s(context, res);\n"
+          "  %s(c, res);\n"
+          "\n"
+          "  if (c) onion_dict_free(c);\n"
           "\n" "  return OCS_PROCESSED;\n" "}\n\n", f, f);
 
   fprintf(st->out,
-- 
2.43.0

