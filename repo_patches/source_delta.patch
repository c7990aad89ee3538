From b8168cd7d6e99ab82b2ff017b7307bbb3cdc7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 01/14] fix: compare whole BIP32 path components, not just
 their first bytes

bip32_path_is_equal() and bip32_path_same_account() passed the number of
components to memcmp() as a number of bytes, so a change output to another
account or chain of the wallet was accepted without confirmation.
---
 src/common/bip32_ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From ae78103dc805ccc4491a93f6070d8e033b5ced0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 02/14] fix: refuse a new output while the previous one is
 unfinished

ergo_tx_serializer_full_add_box() accepted a new output box before the
current one was complete, so bytes of an output that was never shown to the
user went into the signed message. Mirror the check of add_input().
---
 src/ergo/tx_ser_full.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..088c872 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,10 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From 109c98dc256a30b1577b86a795d38fbf6da0849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 03/14] fix: no signed overflow for a token balance of
 INT64_MIN

Negating INT64_MIN is undefined; checked_add_i64() and the minting screen did
so for a transaction that mints 2^63 units of a token.
---
 src/commands/signtx/stx_ui.c | 2 +-
 src/common/safeint.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index a8e26de..c79cd60 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -334,7 +334,7 @@ static NOINLINE uint16_t ui_stx_display_tx_state(uint8_t screen,
                 int64_t value = ctx->amounts->tokens[token_idx];
                 if (value < 0) {  // output > inputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Minting: ");
-                    format_u64(text, text_len, -value);
+                    format_u64(text, text_len, -(uint64_t) value);
                 } else {  // inputs > outputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Burning: ");
                     format_u64(text, text_len, value);
diff --git a/src/common/safeint.h b/src/common/safeint.h
index e3c1ab0..142d01e 100644
--- a/src/common/safeint.h
+++ b/src/common/safeint.h
@@ -18,7 +18,7 @@ static inline bool checked_sub_u64(uint64_t l, uint64_t r, uint64_t* out) {
 static inline bool checked_add_i64(int64_t l, uint64_t r, int64_t* out) {
     if (l < 0) {
         // If r is so big that even without "l" it will overflow int64_t.
-        if (r >= (uint64_t) -l && r + l > INT64_MAX) return false;
+        if (r >= -(uint64_t) l && r + l > INT64_MAX) return false;
     } else {
         // if r is bigger than int64_t or r + l is bigger than int64_t.
         if (r > INT64_MAX || INT64_MAX - r < (uint64_t) l) return false;
-- 
2.43.0


From 64a711dc046a9ddccb6a42ccd0b7ead5aea1f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 04/14] fix: zigzag encoding without shifting negative or
 overflowing integers

---
 src/common/zigzag.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/zigzag.h b/src/common/zigzag.h
index 44991ba..f7e0922 100644
--- a/src/common/zigzag.h
+++ b/src/common/zigzag.h
@@ -10,7 +10,7 @@
 #include <stdint.h>
 
 static inline uint64_t zigzag_encode_i32(int32_t v) {
-    return (uint64_t) ((v << 1) ^ (v >> 31));
+    return (uint64_t) ((int32_t) ((uint32_t) v << 1) ^ (v >> 31));
 }
 
 static inline int32_t zigzag_decode_i32(uint64_t v) {
@@ -18,7 +18,7 @@ static inline int32_t zigzag_decode_i32(uint64_t v) {
 }
 
 static inline uint64_t zigzag_encode_i64(int64_t v) {
-    return (uint64_t) ((v << 1) ^ (v >> 63));
+    return ((uint64_t) v << 1) ^ (uint64_t) (v >> 63);
 }
 
 static inline int64_t zigzag_decode_i64(uint64_t v) {
-- 
2.43.0


From 39f5f0c4b427c21c8d897df2e776a790bf9f77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/14] fix: gve_get_i32() reads back every value gve_put_i32()
 writes

Values of 2^30 and above in magnitude are encoded sign extended to 64 bits
and were rejected by the decoder.
---
 src/common/gve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..69c7d9e 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // the encoder sign extends the 32 bit zigzag value, as the reference implementation does
+    if (u64 > 0xFFFFFFFFULL && u64 < 0xFFFFFFFF80000000ULL) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
-- 
2.43.0


From 46c36e25b7b30140005236e5799925aa22925df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 06/14] fix: gve_get_u64() refuses a number without a last byte

Ten continuation bytes in a row were reported as a successfully read value.
---
 src/common/gve.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index 69c7d9e..6ae9121 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -65,13 +65,10 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
     while (shift < 64) {
         if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
         *val |= (uint64_t) (byte & 0x7F) << shift;
-        if ((byte & 0x80) == 0) {
-            res = GVE_OK;
-            break;
-        }
+        if ((byte & 0x80) == 0) return GVE_OK;
         shift += 7;
     }
-    return res;
+    return res == GVE_OK ? GVE_ERR_INT_TO_BIG : res;  // OK here: no last byte found
 }
 
 gve_result_e gve_put_u64(rw_buffer_t *buffer, uint64_t val) {
-- 
2.43.0


From 094d259f0ffb1c67eb7a988c4412895b2ce8c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 07/14] fix: wipe the product of challenge and secret when
 finishing a signature fails

---
 src/ergo/schnorr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..f2a2b9b 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,16 +103,15 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
-        return false;
-    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
+    bool result =
+        cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) == 0 &&
+        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
-        return false;
+                              PRIVATE_KEY_LEN) == 0;
 
     explicit_bzero(buf, sizeof(buf));
 
-    return true;
+    return result;
 }
-- 
2.43.0


From 6c27c5e267163604faaa80a026b8179accbab2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 08/14] fix: input_frame_data_length() refuses more tokens than
 a frame can have

The length wrapped around for 6 or more tokens, so that only part of such a
frame would have been authenticated.
---
 src/helpers/input_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helpers/input_frame.c b/src/helpers/input_frame.c
index 51d3922..fc51e3a 100644
--- a/src/helpers/input_frame.c
+++ b/src/helpers/input_frame.c
@@ -6,6 +6,9 @@ uint8_t input_frame_data_length(const buffer_t* input) {
         return 0;
     }
     uint8_t token_count = buffer_read_ptr(input)[FRAME_TOKEN_COUNT_POSITION];
+    if (token_count > FRAME_MAX_TOKENS_COUNT) {
+        return 0;
+    }
     uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
     if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
         return 0;
-- 
2.43.0


From d392dd953e588be234bdf788eb654ff01911fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 09/14] fix: pressing both buttons on a path page without an
 action no longer hangs the UI

The validation flow replaced the running flow by a single step from which
ux_flow_next() goes nowhere: the extended public key and address prompts
could then be neither approved nor rejected.
---
 src/ui/ui_bip32_path.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index f00a50d..6bb2551 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -7,11 +7,7 @@ static void* G_ui_bip32_approve_callback_context;
 
 void ux_bip32_path_validate_init(unsigned int stack_slot) {
     UNUSED(stack_slot);
-    if (G_ui_bip32_approve_callback != NULL) {
-        G_ui_bip32_approve_callback(G_ui_bip32_approve_callback_context);
-    } else {
-        ux_flow_next();
-    }
+    G_ui_bip32_approve_callback(G_ui_bip32_approve_callback_context);
 }
 
 const ux_flow_step_t ux_bip32_path_validate_step = {ux_bip32_path_validate_init, NULL, NULL, NULL};
@@ -26,6 +22,15 @@ const ux_flow_step_t ux_bip32_path_step = {
     NULL,
 };
 
+// Same page when there is nothing to approve on it. A validation flow would replace the running
+// flow and leave no page to go to.
+const ux_flow_step_t ux_bip32_path_info_step = {
+    ux_layout_bnnn_paging_init,
+    G_ui_path_params,
+    NULL,
+    NULL,
+};
+
 const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
                                            uint8_t path_len,
                                            const char* title,
@@ -41,5 +46,5 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     }
     G_ui_bip32_approve_callback = cb;
     G_ui_bip32_approve_callback_context = cb_context;
-    return &ux_bip32_path_step;
+    return cb != NULL ? &ux_bip32_path_step : &ux_bip32_path_info_step;
 }
\ No newline at end of file
-- 
2.43.0


From 56e462cfaf793a88e9b7268ae62eeac58f899db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 10/14] fix: get version and get name check that the request
 carries no data, as documented

---
 src/apdu_dispatcher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/apdu_dispatcher.c b/src/apdu_dispatcher.c
index b81a665..f786985 100644
--- a/src/apdu_dispatcher.c
+++ b/src/apdu_dispatcher.c
@@ -26,11 +26,17 @@ int apdu_dispatcher(const command_t *cmd) {
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_version();
         case CMD_GET_APP_NAME:
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_app_name();
         case CMD_GET_EXTENDED_PUBLIC_KEY:
             if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 0) {
-- 
2.43.0


From cb815850726411d0b6addca1f8d2e4506729cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 11/14] fix: do not show a path that was cut at the end

bip32_path_format() reports success when the last digits of the path did not
fit, so that long signing, change and address paths were displayed as
different, shorter paths.
---
 src/commands/signtx/operations/stx_op_p2pk.c |  2 +-
 src/commands/signtx/stx_ui.c                 |  8 ++++----
 src/common/bip32_ext.c                       | 21 +++++++++++++++++++-
 src/common/bip32_ext.h                       |  8 ++++++++
 src/ui/ui_bip32_path.c                       |  2 +-
 5 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/commands/signtx/operations/stx_op_p2pk.c b/src/commands/signtx/operations/stx_op_p2pk.c
index bc85891..dc92150 100644
--- a/src/commands/signtx/operations/stx_op_p2pk.c
+++ b/src/commands/signtx/operations/stx_op_p2pk.c
@@ -421,7 +421,7 @@ static NOINLINE uint16_t ui_stx_operation_p2pk_show_tx_screen(uint8_t index,
     sign_transaction_operation_p2pk_ctx_t *ctx = (sign_transaction_operation_p2pk_ctx_t *) cb_ctx;
     if (index != 0) return SW_BAD_STATE;
     strncpy(title, "P2PK Path", title_len);
-    if (!bip32_path_format(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
+    if (!bip32_path_format_whole(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
         return SW_BIP32_FORMATTING_FAILED;
     }
     return SW_OK;
diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index c79cd60..ef2fc51 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -125,10 +125,10 @@ static inline uint16_t output_info_print_address(const sign_transaction_output_i
     switch (stx_output_info_type(ctx)) {
         case SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32: {
             strncpy(title, "Change", title_len);
-            if (!bip32_path_format(ctx->bip32_path.path,
-                                   ctx->bip32_path.len,
-                                   address,
-                                   address_len)) {
+            if (!bip32_path_format_whole(ctx->bip32_path.path,
+                                         ctx->bip32_path.len,
+                                         address,
+                                         address_len)) {
                 return SW_BIP32_FORMATTING_FAILED;
             }
             break;
diff --git a/src/common/bip32_ext.c b/src/common/bip32_ext.c
index 261e6dc..5cefc04 100644
--- a/src/common/bip32_ext.c
+++ b/src/common/bip32_ext.c
@@ -76,4 +76,23 @@ bool bip32_path_validate(const uint32_t *bip32_path,
             return true;
     }
     LEDGER_ASSERT(false, "Bip32 validation type isn't handled properly");
-}
\ No newline at end of file
+}
+
+bool bip32_path_format_whole(const uint32_t *bip32_path,
+                             size_t bip32_path_len,
+                             char *out,
+                             size_t out_len) {
+    if (!bip32_path_format(bip32_path, bip32_path_len, out, out_len)) {
+        return false;
+    }
+    // bip32_path_format() succeeds when only the digits of the last component were cut
+    const char *last = strrchr(out, '/');
+    size_t shown = strlen(last == NULL ? out : last + 1);
+    size_t digits = 1;
+    for (uint32_t v = bip32_path[bip32_path_len - 1] & 0x7FFFFFFFu; v >= 10; v /= 10) digits++;
+    if (shown < digits) {
+        memset(out, 0, out_len);
+        return false;
+    }
+    return true;
+}
diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index ed41db4..3b04d72 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -21,6 +21,14 @@ bool bip32_path_validate(const uint32_t *bip32_path,
                          uint32_t coin,
                          bip32_path_validation_type_e vtype);
 
+/**
+ * Same as bip32_path_format(), but fails when the path does not fit as a whole.
+ */
+bool bip32_path_format_whole(const uint32_t *bip32_path,
+                             size_t bip32_path_len,
+                             char *out,
+                             size_t out_len);
+
 static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        uint8_t bip32_path_1_len,
                                        const uint32_t *bip32_path_2,
diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index 6bb2551..19035f2 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -41,7 +41,7 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     G_ui_path_params[0].title = title;
     G_ui_path_params[0].text = buffer;
     memset(buffer, 0, buffer_len);
-    if (!bip32_path_format(path, path_len, buffer, buffer_len)) {
+    if (!bip32_path_format_whole(path, path_len, buffer, buffer_len)) {
         return NULL;
     }
     G_ui_bip32_approve_callback = cb;
-- 
2.43.0


From 4f1e7a4a5b1052ad23ef50dd4d861edd4f1ea1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 12/14] fix: a refused address or key request leaves the
 displayed menu as it was

---
 src/commands/deriveaddress/da_ui.c | 13 ++++++++-----
 src/commands/extpubkey/epk_ui.c    |  7 ++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/commands/deriveaddress/da_ui.c b/src/commands/deriveaddress/da_ui.c
index 8218d36..0842800 100644
--- a/src/commands/deriveaddress/da_ui.c
+++ b/src/commands/deriveaddress/da_ui.c
@@ -72,10 +72,6 @@ int ui_display_address(derive_address_ctx_t* ctx,
     ctx->app_token_value = app_access_token;
     ctx->send = send;
 
-    uint8_t screen = 0;
-    ui_add_screen(send ? &ux_da_display_confirm_send_step : &ux_da_display_confirm_addr_step,
-                  &screen);
-
     const ux_flow_step_t* b32_screen =
         ui_bip32_path_screen(bip32_path,
                              bip32_path_len,
@@ -87,7 +83,6 @@ int ui_display_address(derive_address_ctx_t* ctx,
     if (b32_screen == NULL) {
         return send_error(SW_BIP32_FORMATTING_FAILED);
     }
-    ui_add_screen(b32_screen, &screen);
 
     memset(ctx->address, 0, MEMBER_SIZE(derive_address_ctx_t, address));
     if (!send) {
@@ -99,6 +94,14 @@ int ui_display_address(derive_address_ctx_t* ctx,
         if (result == -1 || result >= P2PK_ADDRESS_STRING_MAX_LEN) {
             return send_error(SW_ADDRESS_FORMATTING_FAILED);
         }
+    }
+
+    // The flow on display uses the same array of screens, change it only when nothing can fail
+    uint8_t screen = 0;
+    ui_add_screen(send ? &ux_da_display_confirm_send_step : &ux_da_display_confirm_addr_step,
+                  &screen);
+    ui_add_screen(b32_screen, &screen);
+    if (!send) {
         ui_add_screen(&ux_da_display_address_step, &screen);
     }
 
diff --git a/src/commands/extpubkey/epk_ui.c b/src/commands/extpubkey/epk_ui.c
index c1e12f3..2810557 100644
--- a/src/commands/extpubkey/epk_ui.c
+++ b/src/commands/extpubkey/epk_ui.c
@@ -51,9 +51,6 @@ int ui_display_account(extended_public_key_ctx_t* ctx,
         return res_error(SW_BIP32_BAD_PATH);
     }
 
-    uint8_t screen = 0;
-    ui_add_screen(&ux_epk_display_confirm_ext_pubkey_step, &screen);
-
     const ux_flow_step_t* b32_step =
         ui_bip32_path_screen(bip32_path,
                              bip32_path_len,
@@ -66,6 +63,10 @@ int ui_display_account(extended_public_key_ctx_t* ctx,
         app_set_current_command(CMD_NONE);
         return res_error(SW_BIP32_FORMATTING_FAILED);
     }
+
+    // The flow on display uses the same array of screens, change it only when nothing can fail
+    uint8_t screen = 0;
+    ui_add_screen(&ux_epk_display_confirm_ext_pubkey_step, &screen);
     ui_add_screen(b32_step, &screen);
 
     if (app_access_token != 0) {
-- 
2.43.0


From e4e58bf895504140f78d2d2b8a8d19f82c21c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 13/14] fix: a new session never gets the identifier of the
 session before

The identifier was drawn anew against the one in the context, which has been
cleared by then, so a delayed call of the old session could be taken for one
of the new session.
---
 src/commands/attestinput/ainpt_handler.c |  2 +-
 src/commands/signtx/stx_handler.c        |  2 +-
 src/context.h                            | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/commands/attestinput/ainpt_handler.c b/src/commands/attestinput/ainpt_handler.c
index f3f946d..7fd5a25 100644
--- a/src/commands/attestinput/ainpt_handler.c
+++ b/src/commands/attestinput/ainpt_handler.c
@@ -106,7 +106,7 @@ static inline int handle_init(attest_input_ctx_t *ctx,
     ergo_tx_serializer_box_set_callbacks(&ctx->box, NULL, &box_token_cb, NULL, (void *) ctx);
 
     ctx->state = ATTEST_INPUT_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = app_new_session_id();
 
     if (is_known_application(app_session_id, app_session_id_in)) {
         ctx->state = ATTEST_INPUT_STATE_APPROVED;
diff --git a/src/commands/signtx/stx_handler.c b/src/commands/signtx/stx_handler.c
index 0a27302..110604d 100644
--- a/src/commands/signtx/stx_handler.c
+++ b/src/commands/signtx/stx_handler.c
@@ -76,7 +76,7 @@ static inline int handle_init_p2pk(sign_transaction_ctx_t *ctx,
 
     ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;
     ctx->state = SIGN_TRANSACTION_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = app_new_session_id();
 
     // switch between operations if more will be added
     CHECK_CALL_RESULT_SW_OK(ctx,
diff --git a/src/context.h b/src/context.h
index 88cda12..4c8f8df 100644
--- a/src/context.h
+++ b/src/context.h
@@ -5,6 +5,7 @@
 #include "commands/deriveaddress/da_context.h"
 #include "commands/attestinput/ainpt_context.h"
 #include "commands/signtx/stx_context.h"
+#include "helpers/session_id.h"
 
 /**
  * Structure for application context.
@@ -14,6 +15,7 @@ typedef struct {
     uint8_t session_key[SESSION_KEY_LEN];
     command_e current_command;  /// current command
     bool is_ui_busy;
+    uint8_t last_session_id;  /// identifier of the last started session
     union {
         attest_input_ctx_t attest_input;
         sign_transaction_ctx_t sign_tx;
@@ -69,6 +71,14 @@ static inline command_e app_current_command(void) {
     return G_app_context.current_command;
 }
 
+/**
+ * Get identifier for a new session, different from the one of the last session.
+ */
+static inline uint8_t app_new_session_id(void) {
+    G_app_context.last_session_id = session_id_new_random(G_app_context.last_session_id);
+    return G_app_context.last_session_id;
+}
+
 /**
  * Attest Input command context
  */
-- 
2.43.0


From 8ab9f2d4c0c72df234283b94ce8a5f0be7327b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 14/14] fix: a box with a cut token index stays refused

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0

