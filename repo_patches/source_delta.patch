From 55f00cee9554c33f71387fb89aa17cce92dfb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 01/17] fix: sign and verify tp-dkg messages including their
 payload

Only the header was covered by the signature, so the payload of a signed
message could be replaced without anyone noticing.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..b142740 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, msg_buf + crypto_sign_BYTES, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -148,7 +148,7 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
 
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, msg_buf + crypto_sign_BYTES, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From a6edbe992028ea02b9e091aef13d78c0ee997970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 02/17] fix: bound the number of complaints by the message
 length

The length field was used in network byte order, so a complaint counter
larger than the message made the trusted party and the peers read past
the message. A peer sending such a message is now reported.
---
 src/tp-dkg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index b142740..11f3f2e 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1196,10 +1196,13 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(ntohl(msg->len) - sizeof(TP_DKG_Message) <= msg->data[0]) {
+      if(add_cheater(ctx, 16, 64+1, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0] && (k+1)<ntohl(msg->len)-sizeof(TP_DKG_Message);k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1270,10 +1273,10 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(ntohl(msg9->len) - sizeof(TP_DKG_Message) <= msg9->data[0]) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0] && (k+1)<ntohl(msg9->len)-sizeof(TP_DKG_Message);k++) {
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
-- 
2.43.0


From 7ed42fbc74141a942fda62a808059831f343c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 03/17] fix: complain about dealers whose commitments cannot be
 verified

dkg_verify_commitments() stopped at the first invalid group element and
reported nobody. tp-dkg ignores the return value, so the dealer got away
with it.
---
 src/dkg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..ec9393c 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -150,7 +150,6 @@ int dkg_verify_commitments(const uint8_t n,
   for(uint8_t i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
-- 
2.43.0


From 825d12d01340a34d21ade8322ed8d9b89b9a8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 04/17] fix: do not log to a NULL file when routing a bad
 handshake message

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 11f3f2e..7f87e90 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -885,7 +885,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+        if(log_file!=NULL) fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
         dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
         continue;
       }
-- 
2.43.0


From 9f3b876d5ad091e1f7d830267574bcf17f7c3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 05/17] fix: blame the accused peer for an unanswered complaint

The complaining peer was recorded as the cheater instead.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 7f87e90..6ff3df8 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1476,7 +1476,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From d0d8eac29c5f5cf4739546ac668fdbd90a395ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 06/17] fix: fail when a peer does not acknowledge the result

The trusted party reported success although a peer had not sent "OK".
---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 6ff3df8..e6a9c1e 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1602,6 +1602,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(log_file!=NULL) {
         fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
-- 
2.43.0


From 0f1a1d0b8adbd7f525cadc522655c0fda7752504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 07/17] fix: end the protocol when collecting complaints fails

---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index e6a9c1e..a79fe34 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1627,6 +1627,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
       ctx->step++;
     }
     ctx->step++;
+    if(ret!=0) ctx->step=99; // so that not_done reports done
     return ret;
   }
   case 7: {ret = tp_step18_handler(ctx, input, input_len, output, output_len); break;}
-- 
2.43.0


From a8fe824d073005b50c1432d622412b64dc759aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 08/17] fix: name the cheating peer for every recorded
 violation

tpdkg_cheater_msg() returned 0 for messages with an invalid length or
session id and for bad transcript messages, and mixed up some of the
complaint resolution errors.
---
 src/tp-dkg.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index a79fe34..0e1374d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1686,7 +1686,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1705,26 +1705,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error>16 && c->error<=23) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error>32 && c->error<=39) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1757,8 +1757,19 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
     }
+    if(c->error>1 && c->error<=8) {
+      snprintf(out,outlen, "transcript message from peer %d could not be validated: %s", c->peer, tpdkg_recv_err(c->error - 1));
+      return c->peer;
+    }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
+  } else if(c->step==22) {
+    if(c->error == 1) {
+      snprintf(out,outlen, "peer %d did not acknowledge the result", c->peer);
+      return c->peer;
+    }
+    snprintf(out,outlen, "invalid error code for step 22: %d", c->error);
+    return 0;
   }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
-- 
2.43.0


From b5c624e97de1a329a5b887ed941197caf46bb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 09/17] fix: refuse to start tp-dkg with a threshold below 2

Peers refuse such parameters and the cheater list size t*t-1 makes no
sense for them.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 0e1374d..3f1f06a 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -627,7 +627,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(2>t || t>=n || n>128) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
-- 
2.43.0


From af5415dcc31d282d0caa670846e8e3d5dd1f98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 10/17] fix: stop when a noise handshake fails, and never keep
 freed sessions

The result of the handshake helpers was ignored while their error paths
free the session, leaving dangling pointers which later steps and
tpdkg_peer_free() used. The session arrays are now also initialized, as
the documented way to allocate them leaves them uninitialized.
---
 src/tp-dkg.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 3f1f06a..5900d16 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -175,11 +175,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -206,6 +208,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 2;
   }
 
@@ -213,6 +216,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -224,11 +228,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -251,12 +257,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -268,6 +276,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
@@ -275,6 +284,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -582,7 +592,11 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
@@ -836,6 +850,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
   uint8_t dummy[32]={0}; // the following function needs a deserialization key, which we never use.
 
   ctx->dev = Noise_XK_device_create(13, (uint8_t*) "dpkg p2p v0.1", iname, dummy, ctx->noise_sk);
+  if(ctx->dev == NULL) return 3;
 
   TP_DKG_Message* msg3 = (TP_DKG_Message*) input;
   const uint8_t *ptr = msg3->data;
@@ -856,7 +871,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 4;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -919,7 +934,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 5;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -947,7 +962,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 5;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 70458cc614f069d7cf5fcec7066a512edf740b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 11/17] fix: terminate share generation and verification for
 255 peers

The 8 bit loop counters could never exceed n=255, so the loops ran
forever and wrote out of bounds.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index ec9393c..7872c7c 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(unsigned j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +147,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..95b47d5 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -85,15 +85,15 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
   uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
-  for(i=0;i<threshold-1;i++) {
+  unsigned i;
+  for(i=0;i+1u<threshold;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
-- 
2.43.0


From 900c6f22d10e9b8e62f6e4a9edb6a93f63382b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 12/17] fix: report invalid parts in toprf_thresholdcombine

A part which is not a group element was silently left out.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 95b47d5..a3779fe 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,7 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From dee37c4506fd1dc9e8f92af984610bd47b85e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 13/17] fix: check the number of responses before allocating
 stack for them

---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index a3779fe..b4ba3d4 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -137,8 +137,8 @@ int toprf_thresholdmult(const size_t response_len,
   memset(result,0,crypto_scalarmult_ristretto255_BYTES);
 
   // sort the responses by their indexes
-  uint8_t indexed_indexes[response_len];
   if(response_len>255) return 1;
+  uint8_t indexed_indexes[response_len];
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   uint8_t indexes[response_len];
-- 
2.43.0


From 5be2641e1ba39211d872876ee7f9fa1db7edce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 14/17] fix: unlock and wipe H0 when hashing to the group fails

---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..cdb3e2b 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From 3ce837cb6bd13646d0b8d1cce15eb0207f633d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 15/17] fix: end the protocol for every peer when there are
 complaints

Peers nobody complained about went on, and would have accepted an OK.
---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 5900d16..bf3cc4e 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1323,6 +1323,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // the protocol failed, we skip to the end...
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0


From f901f676533b431e09bdf332be47a7a36e1e9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 16/17] fix: reject peer indexes larger than the number of
 peers

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index bf3cc4e..cacaa7c 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -769,7 +769,7 @@ static int peer_step23_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
   }
   int ret = recv_msg(input, tpdkg_msg1_SIZE, 1, 0, msg1->to, ctx->tp_sig_pk, ctx->sessionid, ctx->ts_epsilon, &ctx->tp_last_ts);
   if(0!=ret) return 4 + ret;
-  if(msg1->to > 128 || msg1->to < 1) return 3;
+  if(msg1->to > ctx->n || msg1->to < 1) return 3;
   ctx->index=msg1->to;
 
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[%d] step 3. send msg2 containing ephemeral pubkey\e[0m\n", ctx->index);
-- 
2.43.0


From f21f1b41010d165d4cadf70284dabc3bff1b62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:59 +0000
Subject: [PATCH 17/17] fix: record the right step for bad handshake messages

The handshake is routed in steps 6 and 8, violations were recorded for 8
and 10.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index cacaa7c..75f7922 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -884,7 +884,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
 }
 
 static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const size_t msg4s_len, uint8_t *output, const size_t output_len) {
-  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 1) * 2);
+  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 2) * 2);
   if(msg4s_len != tpdkg_msg4_SIZE * ctx->n * ctx->n) return 1;
   if(msg4s_len != output_len) return 2;
 
@@ -898,7 +898,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       } 
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
-        if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
+        if(add_cheater(ctx, 6 + (ctx->step - 2) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
         if(log_file!=NULL) fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
         dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
-- 
2.43.0

