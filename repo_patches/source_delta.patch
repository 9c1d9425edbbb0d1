From 98878d60539e447024d550ad9a9e67d47c855d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 01/22] fix: reject Exp-Golomb codes longer than 64 bits

64 or more leading zero bits shifted a 64-bit value by 64 or more.
---
 modules/nginx-rtmp-module/ngx_rtmp_bitop.c | 11 ++++++++++-
 modules/nginx-ts-module/src/ngx_ts_avc.c   |  6 +++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
index 855d425..1d58ef2 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
@@ -57,7 +57,16 @@ ngx_rtmp_bit_read_golomb(ngx_rtmp_bit_reader_t *br)
 {
     ngx_uint_t  n;
 
-    for (n = 0; ngx_rtmp_bit_read(br, 1) == 0 && !br->err; n++);
+    for (n = 0; ngx_rtmp_bit_read(br, 1) == 0 && !br->err; n++) {
+        if (n == 63) {
+            /* the code number does not fit 64 bits */
+            br->err = 1;
+        }
+    }
+
+    if (br->err) {
+        return 0;
+    }
 
     return ((uint64_t) 1 << n) + ngx_rtmp_bit_read(br, n) - 1;
 }
diff --git a/modules/nginx-ts-module/src/ngx_ts_avc.c b/modules/nginx-ts-module/src/ngx_ts_avc.c
index 6d22eed..ec44d47 100644
--- a/modules/nginx-ts-module/src/ngx_ts_avc.c
+++ b/modules/nginx-ts-module/src/ngx_ts_avc.c
@@ -104,7 +104,11 @@ ngx_ts_avc_read_golomb(ngx_ts_avc_reader_t *br)
             return 0;
         }
 
-        n++;
+        if (++n == 64) {
+            /* the code number does not fit 64 bits */
+            br->err = 1;
+            return 0;
+        }
     }
 
     v = ((uint64_t) 1 << n) - 1 + ngx_ts_avc_read(br, n);
-- 
2.43.0


From 6b112d5a7ec62db4d2eed058ae124b3ef8f42278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 02/22] fix: a chainbuf put twice entered the free lists twice

The double put was only detected after the link and its buffer had been
put on the free lists again, so both were handed out twice later.
---
 modules/nginx-toolkit-module/ngx_rbuf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..e4d5c16 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -216,13 +216,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
 
     cb = (ngx_chainbuf_t *) cl;
 
-    if (cb->alloc) {
-        ngx_rbuf_free(cl->buf->start);
-    }
-    cl->next = ngx_rbuf_free_chain;
-    ngx_rbuf_free_chain = cl;
-    ++ngx_rbuf_nfree_chain;
-
     // delete chainbuf from using map
     if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
         ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
@@ -230,6 +223,13 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
     ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
+    if (cb->alloc) {
+        ngx_rbuf_free(cl->buf->start);
+    }
+    cl->next = ngx_rbuf_free_chain;
+    ngx_rbuf_free_chain = cl;
+    ++ngx_rbuf_nfree_chain;
 }
 
 ngx_chain_t *
-- 
2.43.0


From 66a35bd817d28617d610da08c8bdaefa4be99ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 03/22] fix: a recycled chainbuf kept the buffer flags of its
 previous user

A link last used with last_buf or last_in_chain set ended the response of
its next user early.
---
 modules/nginx-toolkit-module/ngx_rbuf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index e4d5c16..56cae2a 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -168,6 +168,8 @@ ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc_rbuf, char *file, int line)
         ngx_rbuf_free_chain = cl->next;
         cl->next = NULL;
         cb = (ngx_chainbuf_t *) cl;
+        cl->buf = &cb->buf;
+        ngx_memzero(cl->buf, sizeof(ngx_buf_t));
 
         --ngx_rbuf_nfree_chain;
     } else {
-- 
2.43.0


From 3d52f69903d99a5625c619083d5df09787997ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 04/22] fix: a session kept only 16 bytes of an IPv6 client
 address, and the access check read past them

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 5 +++--
 modules/nginx-rtmp-module/ngx_rtmp_init.c              | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..d5d670e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -773,8 +773,9 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
+        s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+        ngx_memcpy(s->sockaddr, r->connection->sockaddr,
+                   r->connection->socklen);
     }
 
     s->request = r;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..40527b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 3524f062d758c4ab2eff409ccade8cf06d8e7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 05/22] fix: a reused live server dragged the free servers
 along into the registry

---
 modules/nginx-rtmp-module/ngx_live.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..aeb0b05 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -149,6 +149,7 @@ ngx_live_get_server(ngx_str_t *serverid)
     }
 
     *ngx_cpymem(srv->serverid, serverid->data, serverid->len) = 0;
+    srv->next = NULL;
     srv->deleted = 0;
     srv->n_stream = 0;
 
-- 
2.43.0


From 1aa425cc88fadba11e2f86f5025ab60a8324856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 06/22] fix: a stream that could not be created was still
 counted on its server

---
 modules/nginx-rtmp-module/ngx_live.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index aeb0b05..776d54e 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -209,6 +209,10 @@ ngx_live_get_stream(ngx_str_t *stream)
     st = lcf->free_stream;
     if (st == NULL) {
         st = ngx_pcalloc(lcf->pool, sizeof(ngx_live_stream_t));
+        if (st == NULL) {
+            return NULL;
+        }
+
         ++lcf->alloc_stream_count;
     } else {
         lcf->free_stream = st->next;
@@ -304,6 +308,10 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
+
     ++(*psrv)->n_stream;
 
     return *pst;
-- 
2.43.0


From 2265dfcbe9e35d8779da605bccf418b05f2e5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 07/22] fix: send no chunk header for an empty buffer of a
 message

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..3347a52 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -664,6 +664,11 @@ ngx_rtmp_prepare_out_chain(ngx_rtmp_session_t *s)
     (*ll)->buf->last = l->buf->last;
 
     for (l = l->next; l; l = l->next) {
+        /* no chunk for an empty buffer, peer would misread what follows */
+        if (l->buf->pos == l->buf->last) {
+            continue;
+        }
+
         /* chunk header */
         ll = &(*ll)->next;
         *ll = ngx_get_chainbuf(NGX_RTMP_MAX_CHUNK_HEADER, 1);
-- 
2.43.0


From c59453963f2c91bbbaf34c14594eb7849285ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 08/22] fix: keep the data of a partly received message when
 the chunk size changes

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 3347a52..b099389 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -946,6 +946,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
                 bi->pos += (ngx_cpymem(bo->last, bi->pos,
                             bo->end - bo->last) - bo->last);
+                bo->last = bo->end;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From b4e2c15c520df90aa374eee19a58714ddb30f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 09/22] fix: heap overflow when a peer lowers its chunk size
 with more data behind

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index b099389..0780fbc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -246,6 +246,19 @@ ngx_rtmp_recv(ngx_event_t *rev)
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "reusing formerly read data: %d", old_size);
 
+            /* chunk size may have become smaller than what was read ahead */
+            if (old_size > (size_t) (b->end - b->start)) {
+                b->start = ngx_palloc(s->in_pool, old_size);
+                if (b->start == NULL) {
+                    b->start = b->end;
+                    ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                            "in buf alloc failed");
+                    ngx_rtmp_finalize_session(s);
+                    return;
+                }
+                b->end = b->start + old_size;
+            }
+
             b->pos = b->start;
             b->last = ngx_movemem(b->pos, old_pos, old_size);
 
-- 
2.43.0


From 65b0d6157a89d2de2de033be1cd0a0ff3a00a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 10/22] fix: end the session if a header makes a message
 shorter than what arrived of it

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0780fbc..ff3d587 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -469,6 +469,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 ngx_rtmp_finalize_session(s);
                 return;
             }
+
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "message length %uD less than received %uD",
+                        h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
         }
 
         size = b->last - b->pos;
-- 
2.43.0


From 72ceb2e0c9b23347f01566d64a6c0aff34b90697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 11/22] fix: crash on an AMF message that ends after a key
 nobody asked for

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..e06ea64 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && (elts->type & NGX_RTMP_AMF_OPTIONAL)) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
-- 
2.43.0


From f9c0ca7a4016314ab46534fbcae939df5b009d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 12/22] fix: stack overflow by deeply nested AMF values

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 24 +++++++++++++++++++++---
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  4 ++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index e06ea64..9f22758 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -169,6 +169,24 @@ ngx_rtmp_amf_put(ngx_rtmp_amf_ctx_t *ctx, void *p, size_t n)
 }
 
 
+/* value inside of another one; nesting is limited to protect the stack */
+static ngx_int_t
+ngx_rtmp_amf_read_nested(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elt)
+{
+    ngx_int_t               rc;
+
+    if (ctx->depth >= NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
+    ++ctx->depth;
+    rc = ngx_rtmp_amf_read(ctx, elt, 1);
+    --ctx->depth;
+
+    return rc;
+}
+
+
 static ngx_int_t
 ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         size_t nelts)
@@ -232,7 +250,7 @@ ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
                     || ngx_strncmp(name, elts[n].name.data, len));
                 ++n);
 
-        if (ngx_rtmp_amf_read(ctx, n < nelts ? &elts[n] : NULL, 1) != NGX_OK)
+        if (ngx_rtmp_amf_read_nested(ctx, n < nelts ? &elts[n] : NULL) != NGX_OK)
             return NGX_ERROR;
     }
 
@@ -261,7 +279,7 @@ ngx_rtmp_amf_read_array(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
     ngx_rtmp_amf_reverse_copy(&len, buf, 4);
 
     for (n = 0; n < len; ++n) {
-        if (ngx_rtmp_amf_read(ctx, n < nelts ? &elts[n] : NULL, 1) != NGX_OK)
+        if (ngx_rtmp_amf_read_nested(ctx, n < nelts ? &elts[n] : NULL) != NGX_OK)
             return NGX_ERROR;
     }
 
@@ -293,7 +311,7 @@ ngx_rtmp_amf_read_variant(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
 
     elt.type = type | NGX_RTMP_AMF_TYPELESS;
 
-    return ngx_rtmp_amf_read(ctx, &elt, 1);
+    return ngx_rtmp_amf_read_nested(ctx, &elt);
 }
 
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..4aa8ad1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -12,6 +12,9 @@
 #include <ngx_core.h>
 
 
+/* nested values in a message */
+#define NGX_RTMP_AMF_MAX_DEPTH          64
+
 /* basic types */
 #define NGX_RTMP_AMF_NUMBER             0x00
 #define NGX_RTMP_AMF_BOOLEAN            0x01
@@ -55,6 +58,7 @@ typedef struct {
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
+    ngx_uint_t                          depth;
 } ngx_rtmp_amf_ctx_t;
 
 
-- 
2.43.0


From b42a3c86f4f7110fd1141887e6b85039fc2193a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 13/22] fix: an abort message was sent as a chunk size message

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..8a24196 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -98,7 +98,7 @@ ngx_rtmp_create_abort(ngx_rtmp_session_t *s, uint32_t csid)
                    "create: abort csid=%uD", csid);
 
     {
-        NGX_RTMP_USER_START(s, NGX_RTMP_MSG_CHUNK_SIZE);
+        NGX_RTMP_USER_START(s, NGX_RTMP_MSG_ABORT);
 
         NGX_RTMP_USER_OUT4(csid);
 
-- 
2.43.0


From 014527d93a1dd0410c9bad26406a1956241826a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 14/22] fix: AMF messages longer than a chunk lost everything
 but their last buffer

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index 8a24196..c263dc5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -420,6 +420,7 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                   rc;
     ngx_rtmp_core_srv_conf_t   *cscf;
     ngx_rtmp_frame_t           *frame;
+    ngx_chain_t                *last;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "create: amf nelts=%ui", nelts);
@@ -429,7 +430,9 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     frame = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, NULL, 1);
     frame->hdr = *h;
 
-    rc = ngx_rtmp_append_amf(s, &frame->chain, &frame->chain, elts, nelts);
+    last = frame->chain;
+
+    rc = ngx_rtmp_append_amf(s, &frame->chain, &last, elts, nelts);
 
     if (rc != NGX_OK) {
         ngx_rtmp_shared_free_frame(frame);
-- 
2.43.0


From 0512ec9df9c0e7997240971263a1343b280b53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 15/22] fix: control messages split into several chunks were
 ignored

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 74 +++++++++++++-------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..3457cfb 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -12,29 +12,49 @@
 #include <string.h>
 
 
+/* first bytes of a message, which may be split into several buffers */
+static size_t
+ngx_rtmp_peek(ngx_chain_t *in, u_char *buf, size_t size)
+{
+    size_t                  n;
+    u_char                 *p;
+
+    n = 0;
+
+    for (; in; in = in->next) {
+        for (p = in->buf->pos; p < in->buf->last && n < size; ++p) {
+            buf[n++] = *p;
+        }
+    }
+
+    return n;
+}
+
+
 ngx_int_t
 ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
         ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
-    ngx_buf_t              *b;
+    u_char                  buf[5];
+    size_t                  len;
     u_char                 *p;
     uint32_t                val;
     uint8_t                 limit;
 
-    b = in->buf;
+    len = ngx_rtmp_peek(in, buf, sizeof(buf));
 
-    if (b->last - b->pos < 4) {
+    if (len < 4) {
         ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                "too small buffer for %d message: %d",
-                (int)h->type, b->last - b->pos);
+                "too small buffer for %d message: %uz",
+                (int)h->type, len);
         return NGX_OK;
     }
 
     p = (u_char*)&val;
-    p[0] = b->pos[3];
-    p[1] = b->pos[2];
-    p[2] = b->pos[1];
-    p[3] = b->pos[0];
+    p[0] = buf[3];
+    p[1] = buf[2];
+    p[2] = buf[1];
+    p[3] = buf[0];
 
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
@@ -60,8 +80,8 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
             break;
 
         case NGX_RTMP_MSG_BANDWIDTH:
-            if (b->last - b->pos >= 5) {
-                limit = *(uint8_t*)&b->pos[4];
+            if (len >= 5) {
+                limit = buf[4];
 
                 (void)val;
                 (void)limit;
@@ -87,24 +107,24 @@ ngx_int_t
 ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                               ngx_chain_t *in)
 {
-    ngx_buf_t              *b;
+    u_char                  buf[10];
+    size_t                  len;
     u_char                 *p;
     uint16_t                evt;
     uint32_t                val;
 
-    b = in->buf;
+    len = ngx_rtmp_peek(in, buf, sizeof(buf));
 
-    if (b->last - b->pos < 6) {
+    if (len < 6) {
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                       "too small buffer for user message: %d",
-                       b->last - b->pos);
+                       "too small buffer for user message: %uz", len);
         return NGX_OK;
     }
 
     p = (u_char*)&evt;
 
-    p[0] = b->pos[1];
-    p[1] = b->pos[0];
+    p[0] = buf[1];
+    p[1] = buf[0];
 
     ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "RTMP recv user evt %s (%i)",
@@ -112,10 +132,10 @@ ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     p = (u_char *) &val;
 
-    p[0] = b->pos[5];
-    p[1] = b->pos[4];
-    p[2] = b->pos[3];
-    p[3] = b->pos[2];
+    p[0] = buf[5];
+    p[1] = buf[4];
+    p[2] = buf[3];
+    p[3] = buf[2];
 
     switch(evt) {
         case NGX_RTMP_USER_STREAM_BEGIN:
@@ -160,16 +180,16 @@ ngx_rtmp_user_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
                 v.msid = val;
 
-                if (b->last - b->pos < 10) {
+                if (len < 10) {
                     return NGX_OK;
                 }
 
                 p = (u_char *) &v.buflen;
 
-                p[0] = b->pos[9];
-                p[1] = b->pos[8];
-                p[2] = b->pos[7];
-                p[3] = b->pos[6];
+                p[0] = buf[9];
+                p[1] = buf[8];
+                p[2] = buf[7];
+                p[3] = buf[6];
 
                 ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                                "receive: set_buflen msid=%uD buflen=%uD",
-- 
2.43.0


From 021f9fa1715030208ed076f3a342774a95be52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 16/22] fix: a peer could set a chunk size of 0 or of 4 GB

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 3457cfb..694b545 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -59,7 +59,19 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
             /* set chunk size =val */
-            ngx_rtmp_set_chunk_size(s, val);
+            if (val == 0) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0, "invalid chunk size");
+                return NGX_ERROR;
+            }
+
+            /* no message is longer than that */
+            if (val > 0xffffff) {
+                val = 0xffffff;
+            }
+
+            if (ngx_rtmp_set_chunk_size(s, val) != NGX_OK) {
+                return NGX_ERROR;
+            }
             break;
 
         case NGX_RTMP_MSG_ABORT:
-- 
2.43.0


From 8483f423c1a359d5d4a5c1a05503aef72b7a240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 17/22] fix: aggregates inside of aggregates overflowed the
 stack, chunk size changes inside leaked pools

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 694b545..0abb210 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -329,6 +329,15 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             return NGX_ERROR;
         }
 
+        if (ch.type == NGX_RTMP_MSG_CHUNK_SIZE
+            || ch.type == NGX_RTMP_MSG_AGGREGATE)
+        {
+            ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                          "unexpected %s in aggregate",
+                          ngx_rtmp_message_type(ch.type));
+            return NGX_ERROR;
+        }
+
         if (first) {
             base_time = timestamp;
             first = 0;
-- 
2.43.0


From 43f156d4f61585f36ee760b5897f9cfe8105d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 18/22] fix: accept [v6] without a port and refuse text after
 the bracket that is no port

---
 modules/nginx-toolkit-module/ngx_toolkit_misc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_toolkit_misc.c b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
index 8045460..57d6dc9 100644
--- a/modules/nginx-toolkit-module/ngx_toolkit_misc.c
+++ b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
@@ -75,7 +75,7 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     last = text + len;
     p = ngx_strlchr(text, last, ']');
 
-    if (p == NULL || p == last - 1) {
+    if (p == NULL) {
         ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0,
                 "not a ipv6 address format");
         return 0;
@@ -101,7 +101,13 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     ngx_memcpy(sin6->sin6_addr.s6_addr, inaddr6.s6_addr, 16);
 
     ++p;
-    if (*p == ':') { // has port
+    if (p != last) { // has port
+        if (*p != ':') {
+            ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0,
+                    "not a ipv6 address format");
+            return 0;
+        }
+
         ++p;
         plen = last - p;
 
-- 
2.43.0


From 29c65790b45f3ecbdf9c2426ecabeff1a99d5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 19/22] fix: room for IPv6 and unix addresses in the dynamic
 resolver

---
 .../ngx_dynamic_resolver.c                    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 6f1592f..81831ae 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -33,7 +33,7 @@ struct ngx_dynamic_resolver_ctx_s {
 };
 
 typedef struct {
-    struct sockaddr                     sockaddr;
+    ngx_sockaddr_t                      sockaddr;
     socklen_t                           socklen;
     u_short                             priority;
     u_short                             weight;
@@ -282,7 +282,7 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
             ctx = domain->ctx;
             domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr,
+            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
                    domain->addrs[n].socklen);
             ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
@@ -344,7 +344,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
     ngx_dynamic_resolver_conf_t    *drcf;
     ngx_dynamic_resolver_domain_t  *d;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -354,7 +354,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_error(NGX_LOG_DEBUG_CORE, cycle->log, 0,
@@ -416,7 +416,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
     ngx_dynamic_resolver_domain_t **pd, *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -426,7 +426,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
@@ -489,7 +489,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
     ngx_dynamic_resolver_domain_t  *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx, n;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -499,13 +499,13 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is ipv4/ipv6/unix address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
                 "dynamic resolver async, domain is ipv4/ipv6/unix address");
 
-        h(data, &sa, len);
+        h(data, &sa.sockaddr, len);
 
         return;
     }
@@ -582,7 +582,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
 
     /* call callback */
     n = ngx_random() % d->naddrs;
-    h(data, &d->addrs[n].sockaddr, d->addrs[n].socklen);
+    h(data, &d->addrs[n].sockaddr.sockaddr, d->addrs[n].socklen);
 
     return;
 
-- 
2.43.0


From 3bd186888e88e862f95f6c0c6c8153bf157806ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 20/22] fix: call back with a resolved address only once all of
 them are stored

---
 .../ngx_dynamic_resolver.c                    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 81831ae..c97ac3a 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -272,23 +272,23 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
         domain->addrs[i].socklen = addrs[i].socklen;
         domain->addrs[i].priority = addrs[i].priority;
         domain->addrs[i].weight = addrs[i].weight;
+    }
 
-        n = ngx_random() % domain->naddrs;
+    n = ngx_random() % domain->naddrs;
 
-        while (domain->ctx) {
-            ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
-                    "dynamic resolver, resolver '%V' successd",
-                    &domain->domain);
-            ctx = domain->ctx;
-            domain->ctx = ctx->next;
+    while (domain->ctx) {
+        ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
+                "dynamic resolver, resolver '%V' successd",
+                &domain->domain);
+        ctx = domain->ctx;
+        domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
-                   domain->addrs[n].socklen);
-            ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
+        ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
+               domain->addrs[n].socklen);
+        ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
-            ++n;
-            n %= domain->naddrs;
-        }
+        ++n;
+        n %= domain->naddrs;
     }
 }
 
-- 
2.43.0


From 5fa0048234a84165ebf31db926e75f58c58372a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 21/22] fix: keep a deleted name's record until its outstanding
 results are in

---
 .../ngx_dynamic_resolver.c                    | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index c97ac3a..5dbed84 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -48,6 +48,9 @@ struct ngx_dynamic_resolver_domain_s {
 
     ngx_dynamic_resolver_ctx_t         *ctx;
 
+    ngx_uint_t                          resolving;  /* results outstanding */
+    ngx_uint_t                          deleted;
+
     ngx_dynamic_resolver_domain_t      *next;
 };
 
@@ -244,9 +247,16 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
 
     domain = data;
 
-    if (domain == NULL) {
+    --domain->resolving;
+
+    if (domain->deleted) {
         ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0, "dynamic resolver, "
                 "%V has been deleted", &domain->domain);
+
+        if (domain->resolving == 0) {
+            ngx_dynamic_resolver_put_domain(domain, (ngx_cycle_t *) ngx_cycle);
+        }
+
         return;
     }
 
@@ -296,7 +306,7 @@ static void
 ngx_dynamic_resolver_on_timer(void *data)
 {
     ngx_dynamic_resolver_conf_t    *drcf;
-    ngx_dynamic_resolver_domain_t  *domain;
+    ngx_dynamic_resolver_domain_t  *domain, *next;
     ngx_uint_t                      i;
 
     if (ngx_exiting) {
@@ -312,9 +322,11 @@ ngx_dynamic_resolver_on_timer(void *data)
                     "dynamic resolver, on timer start resolver %V",
                     &domain->domain);
 
+            next = domain->next;
+            ++domain->resolving;
             ngx_event_resolver_start_resolver(&domain->domain,
                     ngx_dynamic_resolver_on_result, domain);
-            domain = domain->next;
+            domain = next;
         }
     }
 
@@ -471,7 +483,11 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
                 ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
             }
 
-            ngx_dynamic_resolver_put_domain(d, (ngx_cycle_t *) ngx_cycle);
+            if (d->resolving) { /* the record is put back on its result */
+                d->deleted = 1;
+            } else {
+                ngx_dynamic_resolver_put_domain(d, (ngx_cycle_t *) ngx_cycle);
+            }
 
             return;
         }
@@ -570,6 +586,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         ctx->next = d->ctx;
         d->ctx = ctx;
 
+        ++d->resolving;
         ngx_event_resolver_start_resolver(&d->domain,
                 ngx_dynamic_resolver_on_result, d);
 
-- 
2.43.0


From 634433e31c29d7174097fb10c190a2ad5e88ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 22/22] fix: release the context and report failure when a name
 cannot be looked up

---
 modules/nginx-toolkit-module/ngx_event_resolver.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_event_resolver.c b/modules/nginx-toolkit-module/ngx_event_resolver.c
index acd194e..70fed4e 100644
--- a/modules/nginx-toolkit-module/ngx_event_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_event_resolver.c
@@ -137,6 +137,9 @@ ngx_event_resolver_get_ctx()
     ctx = ercf->free_ctx;
     if (ctx == NULL) {
         ctx = ngx_pcalloc(ngx_cycle->pool, sizeof(ngx_event_resolver_ctx_t));
+        if (ctx == NULL) {
+            return NULL;
+        }
         ++ercf->nalloc;
     } else {
         ercf->free_ctx = ctx->next;
@@ -207,6 +210,8 @@ ngx_event_resolver_start_resolver(ngx_str_t *domain,
 
     erctx = ngx_event_resolver_get_ctx();
     if (erctx == NULL) {
+        h(data, NULL, 0);
+
         return;
     }
     erctx->handler = h;
@@ -240,10 +245,8 @@ ngx_event_resolver_start_resolver(ngx_str_t *domain,
 failed:
     h(data, NULL, 0);
 
-    if (ctx == NULL || ctx == NGX_NO_RESOLVER) {
-        ngx_resolve_name_done(ctx);
-        ngx_event_resolver_put_ctx(erctx);
-    }
+    /* ngx_resolve_name frees ctx when it fails */
+    ngx_event_resolver_put_ctx(erctx);
 }
 
 ngx_chain_t *
-- 
2.43.0

