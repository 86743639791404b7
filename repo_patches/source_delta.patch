From 7e4fb512c502b5e1ebdc026f7353721970656ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 01/54] fix: report memory outside the SVP region as an error

svp_validate_buffer and svp_create_buffer return bool but returned
SA_STATUS_INVALID_PARAMETER, which converts to true, so memory outside the
protected region was accepted as an SVP buffer.
---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..b7372eb 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 36ddbd0a86f2c010696c79d8859b01b4cc14de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 02/54] fix: validate the SVP buffer before reading its size in
 svp_digest

---
 reference/src/taimpl/src/porting/svp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index b7372eb..633ae55 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -301,6 +301,11 @@ bool svp_digest(
         size_t offset,
         size_t length) {
 
+    if (!svp_validate_buffer(svp_buffer)) {
+        ERROR("svp_validate_buffer failed");
+        return false;
+    }
+
     size_t range;
     if (add_overflow(offset, length, &range)) {
         ERROR("Integer overflow");
@@ -312,11 +317,6 @@ bool svp_digest(
         return false;
     }
 
-    if (!svp_validate_buffer(svp_buffer)) {
-        ERROR("svp_validate_buffer failed");
-        return false;
-    }
-
     unsigned long position;
     if (add_overflow((unsigned long) svp_buffer->svp_memory, offset, &position)) {
         ERROR("Integer overflow");
-- 
2.43.0


From f76021500e0af68dcedc55e1a4a6bd360a588581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 03/54] fix: copy overlapping ranges of one SVP buffer with
 memmove

---
 reference/src/taimpl/src/porting/svp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 633ae55..e71a90d 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -230,7 +230,7 @@ bool svp_copy(
             return false;
         }
 
-        memcpy((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
+        memmove((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
     }
     return true;
 }
-- 
2.43.0


From 1c18883582bfdb3ba229d91a5a24859feed605ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 04/54] fix: release the SVP buffer lock and report an error
 when two releases race

The second of two concurrent releases found no buffer, returned SA_STATUS_OK
and kept the object's mutex and reference, so the first release never ended.
---
 reference/src/taimpl/src/internal/svp_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..88fef13 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -230,9 +230,11 @@ sa_status svp_store_release(
         return status;
     }
 
-    if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
+    // a concurrent call may have released the buffer and be about to remove the object
+    if (svp->buffer == NULL || !svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INVALID_PARAMETER;
     }
 
     svp->buffer = NULL;
-- 
2.43.0


From df3446a893303af654d5f94baefb4108b25e3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 05/54] fix: free slots and objects when creating an object
 store's mutex fails

---
 reference/src/taimpl/src/internal/object_store.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/object_store.c b/reference/src/taimpl/src/internal/object_store.c
index de6ea30..906180e 100644
--- a/reference/src/taimpl/src/internal/object_store.c
+++ b/reference/src/taimpl/src/internal/object_store.c
@@ -83,6 +83,11 @@ object_store_t* object_store_init(
             break;
         }
 
+        if (mtx_init(&store->mutex, mtx_recursive) != thrd_success) {
+            ERROR("mtx_init failed");
+            break;
+        }
+
         store->object_free = object_free;
         store->slots = slots;
         store->objects = objects;
@@ -91,15 +96,10 @@ object_store_t* object_store_init(
         store->release_count = 0;
         store->name = name;
 
-        // slots and objects are not owned by the store
+        // slots and objects are now owned by the store
         slots = NULL;
         objects = NULL;
 
-        if (mtx_init(&store->mutex, mtx_recursive) != thrd_success) {
-            ERROR("mtx_init failed");
-            break;
-        }
-
         status = true;
     } while (false);
 
-- 
2.43.0


From 0736849f1d51f5fb6ac87b4038e4063b8efde82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 06/54] fix: do not wipe through a NULL pointer when padding a
 key runs out of memory

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From f53159f4589c8ae93929e1befd6a3e47a8b6c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 07/54] fix: release the cipher and client when a buffer type
 is invalid

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From 44557455eb059ff13d9bf97c574d60a8864a603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 08/54] fix: lock two SVP buffers in handle order

Copying, processing and common decryption locked the output buffer and then
the input buffer, so two calls using the same buffers in opposite directions
deadlocked.
---
 .../src/taimpl/include/internal/buffer.h      | 28 ++++++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 37 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      | 11 ++----
 .../taimpl/src/ta_sa_crypto_cipher_process.c  | 11 ++----
 .../src/ta_sa_crypto_cipher_process_last.c    | 11 ++----
 .../src/ta_sa_process_common_encryption.c     | 14 ++-----
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    | 20 ++++++++--
 7 files changed, 94 insertions(+), 38 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..3b2872b 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts an output and an input sa_buffer. If both are SVP buffers they are locked in the order of their handles, so
+ * that concurrent calls that use the same two buffers in opposite directions do not deadlock.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the output svp object.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_length the number of bytes that will be written to the output buffer.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the input svp object.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_length the number of bytes that will be read from the input buffer.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..e578cba 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,40 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL) {
+        ERROR("NULL out");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    if (in == NULL) {
+        ERROR("NULL in");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    bool in_first = out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+                    in->context.svp.buffer < out->context.svp.buffer;
+    sa_status status = SA_STATUS_OK;
+    if (in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK)
+        status = convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+
+    if (status == SA_STATUS_OK && !in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+
+    return status;
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..972bca0 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -177,16 +177,11 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in,
+                required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..8cd4062 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -470,16 +470,11 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in,
+                *bytes_to_process, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..584d35d 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -596,16 +596,11 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in,
+                *bytes_to_process, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..c365160 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -126,7 +126,6 @@ static sa_status verify_sample(
             break;
         }
 
-        // Check out buffer length.
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
@@ -134,18 +133,13 @@ static sa_status verify_sample(
             break;
         }
 
+        // Check out and in buffer length.
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in,
+                required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..39f14aa 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -52,16 +52,28 @@ sa_status ta_sa_svp_buffer_copy(
         }
 
         svp_store = client_get_svp_store(client);
+        // lock the buffers in the order of their handles, so that concurrent copies between the same two buffers in
+        // opposite directions do not deadlock
+        if (in < out) {
+            status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+            if (status != SA_STATUS_OK) {
+                ERROR("svp_store_acquire_exclusive failed");
+                break;
+            }
+        }
+
         status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("svp_store_acquire_exclusive failed");
-            break;
+        if (in_svp == NULL) {
+            status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+            if (status != SA_STATUS_OK) {
+                ERROR("svp_store_acquire_exclusive failed");
+                break;
+            }
         }
 
         svp_buffer_t* out_svp_buffer = svp_get_buffer(out_svp);
-- 
2.43.0


From 6f33e096f98680f8df12ece9d092aca2519c1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 09/54] fix: handle short protected ranges and counter rollover
 in common decryption

A protected range shorter than the rest of a partially used AES-CTR block made
the block count underflow, which wrote past the range when the counter was 0 or
near its end and otherwise corrupted the tracked counter. Completing a partial
block also has to count towards the rollover.
---
 reference/src/taimpl/src/internal/cenc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 972bca0..1a36d59 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -49,11 +49,17 @@ static sa_status decrypt(
     // Determine if the iv will rollover. If not, decrypt the whole block.
     size_t leading_partial_block_size =
             *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
+    // If there is not enough data to complete the partial block, the IV does not advance.
+    if (leading_partial_block_size > bytes_to_process)
+        leading_partial_block_size = 0;
+
     size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
     uint64_t* counter_buffer = (uint64_t*) (iv + 8);
+    // 0 if the counter is 0 since there are too many blocks before the rollover to matter.
     size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
-    bool counter_rollover =
-            num_blocks_before_rollover <= (number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0));
+    bool counter_rollover = num_blocks_before_rollover != 0 &&
+                            num_blocks_before_rollover <=
+                                    (number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0));
 
     for (size_t bytes_encrypted = 0; bytes_to_process > bytes_encrypted;) {
         if (counter_rollover && cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR) {
@@ -79,6 +85,7 @@ static sa_status decrypt(
                 *enc_byte_count += length;
                 bytes_encrypted += length;
                 leading_partial_block_size = 0;
+                num_blocks_before_rollover -= 1;
             }
 
             size_t full_blocks_to_encrypt = MIN(num_blocks_before_rollover, number_of_full_blocks);
-- 
2.43.0


From e6c527a910dc33e8ef65c5be1ec1e793e3d164f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 10/54] fix: stop common decryption at the first failed pattern
 stripe

A failure inside the pattern loop only left that loop, so a later subsample
could overwrite the error and the call reported success.
---
 reference/src/taimpl/src/internal/cenc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 1a36d59..0dcce94 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -293,6 +293,9 @@ sa_status cenc_process_sample(
                         }
                     }
 
+                    if (status != SA_STATUS_OK)
+                        break;
+
                     // Copy the clear remainder partial block into the output buffer.
                     if (bytes_left > 0) {
                         memcpy(out_bytes + offset, in_bytes + offset, bytes_left);
-- 
2.43.0


From 84e3b02be7553faa5c18c1ecb2607d05b46763fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 11/54] fix: check the cipher and buffers that common
 decryption actually uses

The checks ran on the objects behind the handles before they were acquired a
second time for the decryption. Another call could replace the cipher or a
buffer in between and decrypt a protected key's content to clear memory.
---
 reference/src/taimpl/include/internal/cenc.h  | 24 ++++++
 reference/src/taimpl/src/internal/cenc.c      | 77 +++++++++++++++++++
 .../src/ta_sa_process_common_encryption.c     | 60 +--------------
 3 files changed, 105 insertions(+), 56 deletions(-)

diff --git a/reference/src/taimpl/include/internal/cenc.h b/reference/src/taimpl/include/internal/cenc.h
index fe0bf1c..e12a238 100644
--- a/reference/src/taimpl/include/internal/cenc.h
+++ b/reference/src/taimpl/include/internal/cenc.h
@@ -41,6 +41,30 @@ size_t cenc_get_required_length(
         sa_subsample_length* subsample_lengths,
         size_t subsample_count);
 
+/**
+ * Checks that a cipher context may be used to decrypt a sample into its output buffer.
+ *
+ * @param[in] sample the structure containing the parameters of the sample.
+ * @param[in] cipher the cipher of the sample's context.
+ * @return SA_STATUS_OK if the cipher may be used.
+ */
+sa_status cenc_check_sample(
+        const sa_sample* sample,
+        const cipher_t* cipher);
+
+/**
+ * Checks if the output and input of a sample overlap.
+ *
+ * @param[in] out_bytes the output bytes.
+ * @param[in] in_bytes the input bytes.
+ * @param[in] length the length of both.
+ * @return true if they overlap.
+ */
+bool cenc_buffers_overlap(
+        const uint8_t* out_bytes,
+        const uint8_t* in_bytes,
+        size_t length);
+
 /**
  * Decrypts a sample using the common encryption algorithm specified in ISO/IEC 23001-7 Common encryption in ISO base
  * media file format files specification.
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 0dcce94..7757c18 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -21,6 +21,7 @@
 #include "common.h"
 #include "log.h"
 #include "porting/overflow.h"
+#include "rights.h"
 #include "sa_cenc.h"
 #include "sa_types.h"
 #include "symmetric.h"
@@ -158,6 +159,69 @@ size_t cenc_get_required_length(
     return required_length;
 }
 
+sa_status cenc_check_sample(
+        const sa_sample* sample,
+        const cipher_t* cipher) {
+
+    sa_cipher_mode cipher_mode = cipher_get_mode(cipher);
+    if (cipher_mode != SA_CIPHER_MODE_DECRYPT) {
+        ERROR("cipher mode not decrypt");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    const sa_rights* rights = cipher_get_key_rights(cipher);
+    if (rights == NULL) {
+        ERROR("cipher_get_key_rights failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    if (!rights_allowed_decrypt(rights, SA_KEY_TYPE_SYMMETRIC)) {
+        ERROR("rights_allowed_decrypt failed");
+        return SA_STATUS_OPERATION_NOT_ALLOWED;
+    }
+
+    if (sample->out->buffer_type != SA_BUFFER_TYPE_CLEAR && sample->out->buffer_type != SA_BUFFER_TYPE_SVP) {
+        ERROR("Invalid out buffer type");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (sample->in->buffer_type != SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != SA_BUFFER_TYPE_SVP) {
+        ERROR("Invalid in buffer type");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
+    if (cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CTR && cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC) {
+        ERROR("Invalid algorithm");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != sample->out->buffer_type) {
+        ERROR("buffer_type mismatch");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && !rights_allowed_clear(rights)) {
+        ERROR("rights_allowed_clear failed");
+        return SA_STATUS_OPERATION_NOT_ALLOWED;
+    }
+
+    return SA_STATUS_OK;
+}
+
+bool cenc_buffers_overlap(
+        const uint8_t* out_bytes,
+        const uint8_t* in_bytes,
+        size_t length) {
+
+    const uint8_t* out_bytes_end = out_bytes + length;
+    const uint8_t* in_bytes_end = in_bytes + length;
+    return (out_bytes >= in_bytes && out_bytes <= in_bytes_end) ||
+           (out_bytes_end >= in_bytes && out_bytes_end <= in_bytes_end) ||
+           (in_bytes >= out_bytes && in_bytes <= out_bytes_end) ||
+           (in_bytes_end >= out_bytes && in_bytes_end <= out_bytes_end);
+}
+
 sa_status cenc_process_sample(
         sa_sample* sample,
         client_t* client,
@@ -176,6 +240,13 @@ sa_status cenc_process_sample(
             break;
         }
 
+        // The handles may refer to other objects than those that were verified before.
+        status = cenc_check_sample(sample, cipher);
+        if (status != SA_STATUS_OK) {
+            ERROR("cenc_check_sample failed");
+            break;
+        }
+
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
@@ -192,6 +263,12 @@ sa_status cenc_process_sample(
             break;
         }
 
+        if (cenc_buffers_overlap(out_bytes, in_bytes, required_length)) {
+            ERROR("Overlapping in and out buffers");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
         symmetric_context_t* symmetric_context = cipher_get_symmetric_context(cipher);
         if (symmetric_context == NULL) {
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index c365160..a750642 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -20,7 +20,6 @@
 #include "cenc.h"
 #include "common.h"
 #include "log.h"
-#include "rights.h"
 
 static sa_status verify_sample(
         sa_sample* sample,
@@ -75,54 +74,9 @@ static sa_status verify_sample(
             break;
         }
 
-        sa_cipher_mode cipher_mode = cipher_get_mode(cipher);
-        if (cipher_mode != SA_CIPHER_MODE_DECRYPT) {
-            ERROR("cipher mode not decrypt");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        const sa_rights* rights = cipher_get_key_rights(cipher);
-        if (rights == NULL) {
-            ERROR("cipher_get_key_rights failed");
-            status = SA_STATUS_INTERNAL_ERROR;
-            break;
-        }
-
-        if (!rights_allowed_decrypt(rights, SA_KEY_TYPE_SYMMETRIC)) {
-            ERROR("rights_allowed_decrypt failed");
-            status = SA_STATUS_OPERATION_NOT_ALLOWED;
-            break;
-        }
-
-        if (sample->out->buffer_type != SA_BUFFER_TYPE_CLEAR && sample->out->buffer_type != SA_BUFFER_TYPE_SVP) {
-            ERROR("Invalid out buffer type");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        if (sample->in->buffer_type != SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != SA_BUFFER_TYPE_SVP) {
-            ERROR("Invalid in buffer type");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-        if (cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CTR && cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC) {
-            ERROR("Invalid algorithm");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != sample->out->buffer_type) {
-            ERROR("buffer_type mismatch");
-            status = SA_STATUS_INVALID_PARAMETER;
-            break;
-        }
-
-        if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && !rights_allowed_clear(rights)) {
-            ERROR("rights_allowed_clear failed");
-            status = SA_STATUS_OPERATION_NOT_ALLOWED;
+        status = cenc_check_sample(sample, cipher);
+        if (status != SA_STATUS_OK) {
+            ERROR("cenc_check_sample failed");
             break;
         }
 
@@ -143,13 +97,7 @@ static sa_status verify_sample(
             break;
         }
 
-        // Check if the buffers overlap.
-        uint8_t* out_bytes_end = out_bytes + required_length;
-        uint8_t* in_bytes_end = in_bytes + required_length;
-        if ((out_bytes >= in_bytes && out_bytes <= in_bytes_end) ||
-                (out_bytes_end >= in_bytes && out_bytes_end <= in_bytes_end) ||
-                (in_bytes >= out_bytes && in_bytes <= out_bytes_end) ||
-                (in_bytes_end >= out_bytes && in_bytes_end <= out_bytes_end)) {
+        if (cenc_buffers_overlap(out_bytes, in_bytes, required_length)) {
             ERROR("Overlapping in and out buffers");
             status = SA_STATUS_INVALID_PARAMETER;
             break;
-- 
2.43.0


From 554f3d75fabd982ebb70cc7cd79d339ae3cd8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 12/54] fix: set RSA OAEP parameters before the cipher is
 visible in the store

A failure after the cipher had been added freed the key that the stored cipher
still owned and left the context behind, and another thread could use the
context before its parameters were set.
---
 .../taimpl/include/internal/cipher_store.h    |  2 ++
 .../src/taimpl/src/internal/cipher_store.c    | 13 +++++++---
 .../src/taimpl/src/ta_sa_crypto_cipher_init.c | 25 +++----------------
 3 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/reference/src/taimpl/include/internal/cipher_store.h b/reference/src/taimpl/include/internal/cipher_store.h
index 3ec2231..00332c7 100644
--- a/reference/src/taimpl/include/internal/cipher_store.h
+++ b/reference/src/taimpl/include/internal/cipher_store.h
@@ -166,6 +166,7 @@ sa_status cipher_store_add_symmetric_context(
  * @param[in] cipher_algorithm cipher algorithm.
  * @param[in] cipher_mode cipher mode.
  * @param[in] stored_key the key. The cipher store will manage the key and it does not need to be freed.
+ * @param[in] oaep_parameters the parameters of an RSA OAEP cipher. NULL for other algorithms.
  * @param[in] caller_uuid caller UUID.
  * @return status of the operation.
  */
@@ -175,6 +176,7 @@ sa_status cipher_store_add_asymmetric_key(
         sa_cipher_algorithm cipher_algorithm,
         sa_cipher_mode cipher_mode,
         stored_key_t* stored_key,
+        const sa_cipher_parameters_rsa_oaep* oaep_parameters,
         const sa_uuid* caller_uuid);
 
 /**
diff --git a/reference/src/taimpl/src/internal/cipher_store.c b/reference/src/taimpl/src/internal/cipher_store.c
index bbe2afc..d613eec 100644
--- a/reference/src/taimpl/src/internal/cipher_store.c
+++ b/reference/src/taimpl/src/internal/cipher_store.c
@@ -344,6 +344,7 @@ sa_status cipher_store_add_asymmetric_key(
         sa_cipher_algorithm cipher_algorithm,
         sa_cipher_mode cipher_mode,
         stored_key_t* stored_key,
+        const sa_cipher_parameters_rsa_oaep* oaep_parameters,
         const sa_uuid* caller_uuid) {
 
     if (context == NULL) {
@@ -389,12 +390,16 @@ sa_status cipher_store_add_asymmetric_key(
 
         cipher->cipher_algorithm = cipher_algorithm;
         cipher->cipher_mode = cipher_mode;
-        cipher->stored_key = stored_key;
-        if (cipher->stored_key == NULL) {
-            ERROR("cipher_alloc failed");
-            break;
+        if (oaep_parameters != NULL) {
+            status = cipher_set_oaep_parameters(cipher, oaep_parameters->digest_algorithm,
+                    oaep_parameters->mgf1_digest_algorithm, oaep_parameters->label, oaep_parameters->label_length);
+            if (status != SA_STATUS_OK) {
+                ERROR("cipher_set_oaep_parameters failed");
+                break;
+            }
         }
 
+        cipher->stored_key = stored_key;
         status = object_store_add(context, store, cipher, caller_uuid);
         if (status != SA_STATUS_OK) {
             // Let the caller free the stored_key to avoid a crash.
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..4c84c4e 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -705,7 +705,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_pkcs1v15(
 
         cipher_store_t* cipher_store = client_get_cipher_store(client);
         status = cipher_store_add_asymmetric_key(context, cipher_store, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, cipher_mode,
-                stored_key, caller_uuid);
+                stored_key, NULL, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_add_asymmetric_key failed");
             break;
@@ -771,8 +771,6 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     }
 
     sa_status status;
-    cipher_store_t* cipher_store = client_get_cipher_store(client);
-    cipher_t* cipher = NULL;
     do {
         status = rsa_verify_cipher(SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode, parameters, stored_key);
         if (status != SA_STATUS_OK) {
@@ -780,30 +778,15 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
             break;
         }
 
+        cipher_store_t* cipher_store = client_get_cipher_store(client);
         status = cipher_store_add_asymmetric_key(context, cipher_store, SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode,
-                stored_key, caller_uuid);
+                stored_key, parameters, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_add_asymmetric_key failed");
             break;
         }
-
-        status = cipher_store_acquire_exclusive(&cipher, cipher_store, *context, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("cipher_store_acquire_exclusive failed");
-            break;
-        }
-
-        status = cipher_set_oaep_parameters(cipher, parameters->digest_algorithm, parameters->mgf1_digest_algorithm,
-                parameters->label, parameters->label_length);
-        if (status != SA_STATUS_OK) {
-            ERROR("cipher_set_oaep_parameters failed");
-            break;
-        }
     } while (false);
 
-    if (cipher != NULL)
-        cipher_store_release_exclusive(cipher_store, *context, cipher, caller_uuid);
-
     return status;
 }
 
@@ -861,7 +844,7 @@ static sa_status ta_sa_crypto_cipher_init_ec(
 
         cipher_store_t* cipher_store = client_get_cipher_store(client);
         status = cipher_store_add_asymmetric_key(context, cipher_store, SA_CIPHER_ALGORITHM_EC_ELGAMAL, cipher_mode,
-                stored_key, caller_uuid);
+                stored_key, NULL, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_add_asymmetric_key failed");
             break;
-- 
2.43.0


From 8851e95937b0c188a1edb44e195739b51b15bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 13/54] fix: refuse to unwrap empty PKCS7 padded input

The padding check read before the start of the empty buffer and its value was
subtracted from a length of 0.
---
 reference/src/taimpl/src/internal/unwrap.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..9bd52ed 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -156,6 +156,12 @@ sa_status unwrap_aes_ecb(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) {
+            if (in_length < AES_BLOCK_SIZE) {
+                ERROR("Invalid in_length");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
@@ -247,6 +253,12 @@ sa_status unwrap_aes_cbc(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) {
+            if (in_length < AES_BLOCK_SIZE) {
+                ERROR("Invalid in_length");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From cc6de7bcb9e92d6399cd8d38f8d80bfaaa74f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 14/54] fix: free the unwrap buffer when the RSA OAEP label is
 invalid

---
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index 9bd52ed..e3f365f 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -814,7 +814,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From bd832411fe1c4599531a72d1657d63a697fd83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 15/54] fix: report a failure to set DH padding

It returned false, which is SA_STATUS_OK, without a shared secret and without
freeing the keys.
---
 reference/src/taimpl/src/internal/dh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/dh.c b/reference/src/taimpl/src/internal/dh.c
index 5342212..173ad8b 100644
--- a/reference/src/taimpl/src/internal/dh.c
+++ b/reference/src/taimpl/src/internal/dh.c
@@ -197,7 +197,7 @@ sa_status dh_compute_shared_secret(
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
         if (EVP_PKEY_CTX_set_dh_pad(evp_pkey_ctx, 1) != 1) {
             ERROR("EVP_PKEY_CTX_set_dh_pad failed");
-            return false;
+            break;
         }
 #endif
 
-- 
2.43.0


From f797c4fbd1456e1407acf662284f814709a970f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 16/54] fix: pass every offset of sa_svp_buffer_write to the TA

---
 reference/src/clientimpl/src/sa_svp_buffer_write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 30d9738..5c4150d 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -67,9 +67,9 @@ sa_status sa_svp_buffer_write(
         }
 
         for (size_t i = 0; i < offsets_length; i++) {
-            offset_s[i].out_offset = offsets->out_offset;
-            offset_s[i].in_offset = offsets->in_offset;
-            offset_s[i].length = offsets->length;
+            offset_s[i].out_offset = offsets[i].out_offset;
+            offset_s[i].in_offset = offsets[i].in_offset;
+            offset_s[i].length = offsets[i].length;
         }
 
         CREATE_PARAM(param2, offset_s, param2_size);
-- 
2.43.0


From 4ff68ed974f0e8c487c98a841162202c20b093ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 17/54] fix: accept a key wrapped with an AEAD cipher and no
 additional data

---
 reference/src/taimpl/src/internal/ta.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..1a47888 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -596,11 +596,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_aes_gcm_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_aes_gcm.iv = &parameters_aes_gcm_s.iv;
             parameters_aes_gcm.iv_length = parameters_aes_gcm_s.iv_length;
@@ -641,11 +637,7 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
+            // params[3].mem_ref can be NULL
             memcpy(&parameters_chacha_20_poly_1305_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_chacha20_poly1305.nonce = &parameters_chacha_20_poly_1305_s.nonce;
             parameters_chacha20_poly1305.nonce_length = parameters_chacha_20_poly_1305_s.nonce_length;
-- 
2.43.0


From 3092dbfb27a6caf58da90a7d9e805e7c94c176a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 18/54] fix: free the command when sa_get_device_id fails

---
 reference/src/clientimpl/src/sa_get_device_id.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_get_device_id.c b/reference/src/clientimpl/src/sa_get_device_id.c
index 2c97a79..4b0d8df 100644
--- a/reference/src/clientimpl/src/sa_get_device_id.c
+++ b/reference/src/clientimpl/src/sa_get_device_id.c
@@ -52,7 +52,7 @@ sa_status sa_get_device_id(uint64_t* id) {
         status = ta_invoke_command(session, SA_GET_DEVICE_ID, param_types, params);
         if (status != SA_STATUS_OK) {
             ERROR("ta_invoke_command failed: %d", status);
-            return status;
+            break;
         }
 
         *id = get_device_id->id;
-- 
2.43.0


From 24e67e89961e584c419e93a55f869ba5ed69ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 19/54] fix: do not read the client session or client store
 while another thread creates it

---
 .../src/clientimpl/src/internal/client.c      | 25 ++++++++++-------
 .../src/taimpl/src/internal/client_store.c    | 27 ++++++-------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..e00e567 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -29,10 +29,20 @@ static once_flag shutdown_flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
 
 static void client_shutdown() {
-    if (session != NULL) {
-        ta_close_session(session);
-        session = NULL;
+    if (mtx_lock(&mutex) != thrd_success) {
+        ERROR("mtx_lock failed");
+        return;
+    }
+
+    void* open_session = session;
+    session = NULL;
+
+    if (mtx_unlock(&mutex) != thrd_success) {
+        ERROR("mtx_unlock failed");
     }
+
+    if (open_session != NULL)
+        ta_close_session(open_session);
 }
 
 static void client_mutex_create() {
@@ -51,10 +61,6 @@ static void client_create() {
 }
 
 void* client_session() {
-    if (session != NULL) {
-        return session;
-    }
-
     call_once(&mutex_flag, client_mutex_create);
 
     if (mtx_lock(&mutex) != thrd_success) {
@@ -63,7 +69,6 @@ void* client_session() {
     }
 
     do {
-        // someone may have created a client underneath us
         if (session != NULL) {
             break;
         }
@@ -79,9 +84,11 @@ void* client_session() {
         call_once(&shutdown_flag, client_create);
     } while (false);
 
+    void* open_session = session;
+
     if (mtx_unlock(&mutex) != thrd_success) {
         ERROR("mtx_unlock failed");
     }
 
-    return session;
+    return open_session;
 }
diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..7d2eb37 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -19,6 +19,7 @@
 #include "client_store.h"
 #include "log.h"
 #include "porting/memory.h"
+#include <stdatomic.h>
 #include <stdlib.h>
 #include <threads.h>
 
@@ -30,7 +31,8 @@
 
 static once_flag flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
-static bool global_shutdown = false;
+static client_store_t* global = NULL;
+static atomic_bool global_shutdown = false;
 
 struct client_s {
     key_store_t* key_store;
@@ -180,15 +182,6 @@ static void client_store_global_create() {
 }
 
 client_store_t* client_store_global() {
-    static client_store_t* global = NULL;
-
-    if (global != NULL) {
-        if (global_shutdown)
-            return NULL;
-
-        return global;
-    }
-
     call_once(&flag, client_store_global_create);
 
     if (mtx_lock(&mutex) != thrd_success) {
@@ -196,24 +189,20 @@ client_store_t* client_store_global() {
         return NULL;
     }
 
-    do {
-        // someone may have created an instance underneath us
-        if (global != NULL) {
-            break;
-        }
-
+    if (global == NULL && !global_shutdown) {
         global = client_store_init(NUM_CLIENT_SLOTS);
         if (global == NULL) {
             ERROR("client_store_init failed");
-            break;
         }
-    } while (false);
+    }
+
+    client_store_t* store = global_shutdown ? NULL : global;
 
     if (mtx_unlock(&mutex) != thrd_success) {
         ERROR("mtx_unlock failed");
     }
 
-    return global;
+    return store;
 }
 
 sa_status client_store_add(
-- 
2.43.0


From 6e3f1212391225bea5d61925e75287fd99cff9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 20/54] fix: never take a key from the key store that was not
 read successfully

---
 reference/src/util/src/pkcs12.c | 54 +++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index f71d4a1..8566ff6 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -139,8 +139,17 @@ static int parse_pkcs12_safe_bag(
 
             const unsigned char* p_data = secret_bag_data + offset;
             octet_string = ASN1_OCTET_STRING_new();
-            ASN1_OCTET_STRING_set(octet_string, p_data, secret_data_length);
+            if (octet_string == NULL || ASN1_OCTET_STRING_set(octet_string, p_data, secret_data_length) != 1) {
+                ERROR("ASN1_OCTET_STRING_set failed");
+                break;
+            }
+
             x509_sig = ASN1_item_unpack(octet_string, ASN1_ITEM_rptr(X509_SIG));
+            if (x509_sig == NULL) {
+                ERROR("NULL x509_sig");
+                break;
+            }
+
             priv_key_info = PKCS8_decrypt(x509_sig, password, -1);
             if (priv_key_info == NULL) {
                 ERROR("NULL priv_key_info");
@@ -161,6 +170,11 @@ static int parse_pkcs12_safe_bag(
                 break;
             }
 
+            if (secret_key_length <= 0 || (size_t) secret_key_length > *key_length) {
+                ERROR("Invalid secret_key_length");
+                break;
+            }
+
             memcpy(key, secret_key, secret_key_length);
             *key_length = secret_key_length;
         } else {
@@ -225,8 +239,8 @@ bool load_pkcs12_secret_key(
         }
 
         bool pkcs12_parse_failed = false;
-        STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
-        for (int i = 0; !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
+        for (int i = 0; !status && !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
+            STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
             PKCS7* pkcs7 = sk_PKCS7_value(auth_safes, i);
             int bag_nid = OBJ_obj2nid(pkcs7->type);
 
@@ -239,18 +253,40 @@ bool load_pkcs12_secret_key(
                 pkcs12_parse_failed = true;
             }
 
-            for (int j = 0; !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
+            if (pkcs12_safebags == NULL) {
+                ERROR("NULL pkcs12_safebags");
+                pkcs12_parse_failed = true;
+            }
+
+            for (int j = 0; !status && !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
                 PKCS12_SAFEBAG* pkcs12_safebag = sk_PKCS12_SAFEBAG_value(pkcs12_safebags, j);
-                if (parse_pkcs12_safe_bag(pkcs12_safebag, password, key, key_length, name, name_length) != 1) {
-                    pkcs12_parse_failed = true;
+                uint8_t bag_key[SYM_MAX_KEY_SIZE];
+                size_t bag_key_length = sizeof(bag_key);
+                char bag_name[MAX_NAME_SIZE] = {0};
+                size_t bag_name_length = sizeof(bag_name);
+                if (parse_pkcs12_safe_bag(pkcs12_safebag, password, bag_key, &bag_key_length, bag_name,
+                            &bag_name_length) != 1) {
                     ERROR("parse_pkcs12_safe_bag failed");
+                    pkcs12_parse_failed = true;
+                    break;
                 }
 
-                bool is_common_root = strncmp(COMMON_ROOT_NAME, name, strlen(COMMON_ROOT_NAME)) == 0;
+                // only the requested key is returned
+                bool is_common_root = strncmp(COMMON_ROOT_NAME, bag_name, strlen(COMMON_ROOT_NAME)) == 0;
                 if (is_common_root == requested_common_root) {
-                    status = true;
-                    break;
+                    if (bag_key_length > *key_length || bag_name_length > *name_length) {
+                        ERROR("key or name too long");
+                        pkcs12_parse_failed = true;
+                    } else {
+                        memcpy(key, bag_key, bag_key_length);
+                        *key_length = bag_key_length;
+                        memcpy(name, bag_name, bag_name_length);
+                        *name_length = bag_name_length;
+                        status = true;
+                    }
                 }
+
+                OPENSSL_cleanse(bag_key, sizeof(bag_key));
             }
 
             sk_PKCS12_SAFEBAG_pop_free(pkcs12_safebags, PKCS12_SAFEBAG_free);
-- 
2.43.0


From bfa9ef5207c0b6eaaa486413ce1f45244cb9298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 21/54] fix: load the root keys and device ID under a lock and
 only if they are valid

---
 reference/src/taimpl/src/porting/otp.c | 154 ++++++++++++++++++-------
 1 file changed, 113 insertions(+), 41 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..dce075c 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,6 +27,7 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <threads.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
@@ -34,6 +35,8 @@
 #define MAX_DEVICE_NAME_LENGTH 16
 
 static uint64_t device_id;
+static once_flag root_key_flag = ONCE_FLAG_INIT;
+static mtx_t root_key_mutex;
 
 static uint64_t convert_str_to_int(
         const char* str,
@@ -64,6 +67,57 @@ static uint64_t convert_str_to_int(
     return value;
 }
 
+static void root_key_mutex_create() {
+    if (mtx_init(&root_key_mutex, mtx_plain) != thrd_success) {
+        ERROR("mtx_init failed");
+    }
+}
+
+static bool root_key_lock() {
+    call_once(&root_key_flag, root_key_mutex_create);
+    if (mtx_lock(&root_key_mutex) != thrd_success) {
+        ERROR("mtx_lock failed");
+        return false;
+    }
+
+    return true;
+}
+
+static void root_key_unlock() {
+    if (mtx_unlock(&root_key_mutex) != thrd_success) {
+        ERROR("mtx_unlock failed");
+    }
+}
+
+// Must be called with the root key mutex locked. Publishes the key and the device ID only if both are valid.
+static bool load_root_key(
+        uint8_t* key,
+        size_t* key_length) {
+
+    uint8_t loaded_key[SYM_128_KEY_SIZE];
+    size_t loaded_key_length = SYM_128_KEY_SIZE;
+    char device_name[MAX_DEVICE_NAME_LENGTH];
+    size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
+    device_name[0] = '\0';
+    if (load_pkcs12_secret_key(loaded_key, &loaded_key_length, device_name, &device_name_length) != 1) {
+        ERROR("load_pkcs12_secret_key failed");
+        return false;
+    }
+
+    uint64_t loaded_device_id = convert_str_to_int(device_name, device_name_length);
+    bool status = loaded_device_id != 0;
+    if (status) {
+        memcpy(key, loaded_key, loaded_key_length);
+        *key_length = loaded_key_length;
+        device_id = loaded_device_id;
+    } else {
+        ERROR("Invalid device ID in keystore");
+    }
+
+    memory_memset_unoptimizable(loaded_key, 0, sizeof(loaded_key));
+    return status;
+}
+
 static bool get_root_key(
         void* root_key,
         size_t* root_key_length) {
@@ -80,30 +134,30 @@ static bool get_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char device_name[MAX_DEVICE_NAME_LENGTH];
-        size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
-        device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
+    if (!root_key_lock()) {
+        ERROR("root_key_lock failed");
+        return false;
+    }
+
+    bool status = false;
+    do {
+        if (key_length == 0 && !load_root_key(key, &key_length)) {
+            ERROR("load_root_key failed");
+            break;
         }
 
-        device_id = convert_str_to_int(device_name, device_name_length);
-        if (device_id == 0) {
-            ERROR("Invalid device ID in keystore");
-            return false;
+        if (*root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
         }
-    }
 
-    if (*root_key_length < key_length) {
-        ERROR("root key too short");
-        return false;
-    }
+        memcpy(root_key, key, key_length);
+        *root_key_length = key_length;
+        status = true;
+    } while (false);
 
-    memcpy(root_key, key, key_length);
-    *root_key_length = key_length;
-    return true;
+    root_key_unlock();
+    return status;
 }
 
 static bool get_common_root_key(
@@ -122,24 +176,38 @@ static bool get_common_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char name[MAX_NAME_SIZE];
-        size_t name_length = MAX_NAME_SIZE;
-        strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
-        }
-    }
-
-    if (*common_root_key_length < key_length) {
-        ERROR("root key too short");
+    if (!root_key_lock()) {
+        ERROR("root_key_lock failed");
         return false;
     }
 
-    memcpy(common_root_key, key, key_length);
-    *common_root_key_length = key_length;
-    return true;
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char name[MAX_NAME_SIZE];
+            size_t name_length = MAX_NAME_SIZE;
+            strcpy(name, COMMON_ROOT_NAME);
+            size_t loaded_key_length = SYM_128_KEY_SIZE;
+            if (load_pkcs12_secret_key(key, &loaded_key_length, name, &name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+
+            key_length = loaded_key_length;
+        }
+
+        if (*common_root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
+        }
+
+        memcpy(common_root_key, key, key_length);
+        *common_root_key_length = key_length;
+        status = true;
+    } while (false);
+
+    root_key_unlock();
+    return status;
 }
 
 static sa_status wrap_aes_cbc(
@@ -240,22 +308,22 @@ static sa_status otp_hw_key_ladder(
 
     if (derived == NULL) {
         ERROR("NULL derived");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c1 == NULL) {
         ERROR("NULL c1");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c2 == NULL) {
         ERROR("NULL c2");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     if (c3 == NULL) {
         ERROR("NULL c3");
-        return false;
+        return SA_STATUS_NULL_PARAMETER;
     }
 
     sa_status status = SA_STATUS_INTERNAL_ERROR;
@@ -633,11 +701,15 @@ sa_status otp_device_id(uint64_t* id) {
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    // If not initialized yet, attempt to set the device id and ignore the result.
+    // The device ID is loaded with the root key.
     uint8_t root_key[SYM_256_KEY_SIZE];
     size_t root_key_length = SYM_256_KEY_SIZE;
-    if (device_id == 0)
-        get_root_key(root_key, &root_key_length);
+    bool loaded = get_root_key(root_key, &root_key_length);
+    memory_memset_unoptimizable(root_key, 0, sizeof(root_key));
+    if (!loaded) {
+        ERROR("get_root_key failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
 
     *id = device_id;
     return SA_STATUS_OK;
-- 
2.43.0


From 73b86293161c80a044d0a0704d4b2a7701cff3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 22/54] fix: report a failed RSA PSS signature as an error

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From eaa7d0387ae1694838df831f69fe5af911facbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 23/54] fix: wipe the decrypted key and shared secret in
 ec_decrypt_elgamal

---
 reference/src/taimpl/src/internal/ec.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 16b2d19..8050443 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -445,6 +445,7 @@ sa_status ec_decrypt_elgamal(
     EVP_PKEY* evp_pkey = NULL;
     EC_GROUP* ec_group = NULL;
     uint8_t* buffer = NULL;
+    size_t point_length = 0;
     EC_POINT* c1 = NULL;
     EC_POINT* c2 = NULL;
     EC_POINT* shared_secret = NULL;
@@ -475,7 +476,7 @@ sa_status ec_decrypt_elgamal(
             break;
         }
 
-        size_t point_length = (size_t) header->size * 2;
+        point_length = (size_t) header->size * 2;
         if (out == NULL) {
             *out_length = point_length * 2;
             status = SA_STATUS_OK;
@@ -546,7 +547,7 @@ sa_status ec_decrypt_elgamal(
 
         int result = EC_POINT_mul(ec_group, shared_secret, NULL, c1, private_key, NULL);
 #if OPENSSL_VERSION_NUMBER >= 0x30000000
-        BN_free(private_key);
+        BN_clear_free(private_key);
 #endif
         if (result == 0) {
             ERROR("EC_POINT_mul failed");
@@ -581,15 +582,17 @@ sa_status ec_decrypt_elgamal(
         status = SA_STATUS_OK;
     } while (false);
 
-    if (buffer != NULL)
+    if (buffer != NULL) {
+        memory_memset_unoptimizable(buffer, 0, point_length);
         memory_secure_free(buffer);
+    }
 
     EVP_PKEY_free(evp_pkey);
     EC_GROUP_free(ec_group);
     EC_POINT_free(c1);
     EC_POINT_free(c2);
-    EC_POINT_free(shared_secret);
-    EC_POINT_free(message_point);
+    EC_POINT_clear_free(shared_secret);
+    EC_POINT_clear_free(message_point);
     BN_free(message_point_x);
 
     return status;
-- 
2.43.0


From 2e3e465f87ab8360ed21edfca1905a9680e7a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 24/54] fix: check the lengths and types of SoC key container
 fields before using them

---
 .../taimpl/src/internal/soc_key_container.c   | 158 +++++++++++-------
 1 file changed, 100 insertions(+), 58 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..bdd4775 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -304,6 +304,50 @@ static sa_status parse_header(
     return SA_STATUS_OK;
 }
 
+static bool string_equals(
+        const char* string,
+        size_t string_length,
+        const char* expected) {
+
+    return string != NULL && string_length == strlen(expected) &&
+           memory_memcmp_constant(string, expected, string_length) == 0;
+}
+
+static bool decode_fixed(
+        uint8_t* out,
+        size_t out_length,
+        const json_value_t* value,
+        bool url_decode) {
+
+    size_t b64_length = 0;
+    const char* b64 = json_value_as_string(&b64_length, value);
+    if (b64 == NULL) {
+        ERROR("json_value_as_string failed");
+        return false;
+    }
+
+    // The decoded length is a multiple of 3 before the padding is taken off.
+    uint8_t decoded[AES_BLOCK_SIZE + 2];
+    size_t decoded_length = b64_decoded_length(b64_length);
+    if (decoded_length > sizeof(decoded)) {
+        ERROR("Invalid length");
+        return false;
+    }
+
+    if (!b64_decode(decoded, &decoded_length, b64, b64_length, url_decode)) {
+        ERROR("b64_decode failed");
+        return false;
+    }
+
+    if (decoded_length != out_length) {
+        ERROR("Invalid length");
+        return false;
+    }
+
+    memcpy(out, decoded, out_length);
+    return true;
+}
+
 static sa_status parse_payload(
         json_key_value_t* fields,
         size_t fields_count,
@@ -337,9 +381,9 @@ static sa_status parse_payload(
             size_t root_key_type_length;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (string_equals(root_key_type, root_key_type_length, UNIQUE_STR)) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (string_equals(root_key_type, root_key_type_length, COMMON_STR)) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -372,6 +416,11 @@ static sa_status parse_payload(
 
     size_t b64_encrypted_key_length;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
+    if (encrypted_key == NULL) {
+        ERROR("Invalid encryptedKey");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
     if (payload->encrypted_key == NULL) {
@@ -393,11 +442,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
-    const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed(payload->iv, GCM_IV_LENGTH, iv_field->value, false)) {
+        ERROR("decode_fixed failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -431,10 +477,21 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
+        if (payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Too many entitled_ta_ids");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -453,12 +510,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
-    const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1_field->value, false)) {
+        ERROR("decode_fixed failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -469,12 +522,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
-    const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2_field->value, true)) {
+        ERROR("decode_fixed failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -485,12 +534,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
-    const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3_field->value, false)) {
+        ERROR("decode_fixed failed");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -564,12 +609,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -641,97 +683,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (string_equals(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
@@ -770,13 +812,6 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    uint8_t aad[MAX_AAD_SIZE];
-    size_t aad_length = build_aad(aad, header, payload);
-    if (aad_length == 0) {
-        ERROR("build_aad failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
-    }
-
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
@@ -787,6 +822,13 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    uint8_t aad[MAX_AAD_SIZE];
+    size_t aad_length = build_aad(aad, header, payload);
+    if (aad_length == 0) {
+        ERROR("build_aad failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
-- 
2.43.0


From 0f2d559d5393bd9d06efd2510237dcb859b98b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 25/54] fix: refuse SoC key containers with a partial tag or
 truncated version or usage

---
 .../taimpl/src/internal/soc_key_container.c   | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index bdd4775..90f25ba 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -370,7 +370,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->container_version = json_value_as_integer(container_version_field->value);
+    int64_t container_version = json_value_as_integer(container_version_field->value);
+    if (container_version < 0 || container_version > UINT8_MAX) {
+        ERROR("Invalid containerVersion");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->container_version = container_version;
 
     // read the root key type
     if (payload->container_version >= 5) {
@@ -454,7 +460,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->key_usage = json_value_as_integer(key_usage_field->value);
+    int64_t key_usage = json_value_as_integer(key_usage_field->value);
+    if (key_usage < 0 || key_usage > UINT8_MAX) {
+        ERROR("Invalid keyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->key_usage = key_usage;
 
     if (payload->key_usage == KEY_ONLY) {
         // read decrypted key usage
@@ -464,7 +476,13 @@ static sa_status parse_payload(
             // For sake of compatibility,sometimes there is no field of decrypted_key_usage.
             payload->decrypted_key_usage = 0;
         } else {
-            payload->decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            int64_t decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            if (decrypted_key_usage < 0 || decrypted_key_usage > UINT8_MAX) {
+                ERROR("Invalid decryptedKeyUsage");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
+
+            payload->decrypted_key_usage = decrypted_key_usage;
         }
     } else {
         payload->decrypted_key_usage = 0;
@@ -812,6 +830,12 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    // A shorter tag would authenticate, but only in part.
+    if (unpacked->mac_length != AES_BLOCK_SIZE) {
+        ERROR("Invalid mac_length");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
-- 
2.43.0


From f7952689815680258e8f2ce161fd54375d802b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 26/54] fix: free the encrypted key of a malformed SoC key
 container only once

---
 reference/src/taimpl/src/internal/soc_key_container.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 90f25ba..9dc468c 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -437,7 +437,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -898,6 +897,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
@@ -960,7 +960,7 @@ sa_status soc_kc_unwrap(
     soc_kc_header_t header;
     soc_kc_payload_t payload;
 
-    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_unpacked_t));
+    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_payload_t));
     sa_status status = SA_STATUS_INVALID_KEY_FORMAT;
     do {
         unpacked = unpack_soc_kc(in, in_length);
-- 
2.43.0


From fbe7161927150065082de776ad265b1e4901b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 27/54] fix: free the parts of a malformed Type-J container
 only once

---
 reference/src/taimpl/src/internal/typej.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..dab41c4 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -176,7 +176,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
@@ -185,7 +184,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
@@ -193,7 +191,6 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -542,7 +539,6 @@ static sa_status unwrap_key_v1(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -655,7 +651,6 @@ static sa_status unwrap_key_v2(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -699,7 +694,6 @@ static sa_status unwrap_key_v2(
             iv = memory_internal_alloc(iv_size);
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From 60518e860105ec7dcbcc46f55f96259a6630b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 28/54] fix: refuse entitledTaIds of a Type-J container that
 are not an array of strings

---
 reference/src/taimpl/src/internal/typej.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index dab41c4..f052021 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -471,6 +471,11 @@ static sa_status fields_to_rights(
     } else {
         size_t entitled_ta_ids_length;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -480,7 +485,7 @@ static sa_status fields_to_rights(
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
-- 
2.43.0


From f3519c6e6a61fa16685d1dc58745915863f12acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 29/54] fix: fail cleanly when a key container cannot be
 unpacked for lack of memory

---
 reference/src/taimpl/src/internal/soc_key_container.c | 4 ++++
 reference/src/taimpl/src/internal/typej.c             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9dc468c..ea50006 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -111,6 +111,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index f052021..5685536 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
-- 
2.43.0


From 8bc8f93fc9170434563f4e4a78bd734661fe3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 30/54] fix: fail the parsing of JSON when memory runs out
 instead of leaving out parts of it

---
 reference/src/taimpl/src/internal/json.c | 81 ++++++++++++++++++------
 1 file changed, 62 insertions(+), 19 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..b60413b 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -417,7 +417,7 @@ static json_stack_t* json_parse_context_push(
     return context->stack;
 }
 
-static void json_parse_context_set_value(
+static bool json_parse_context_set_value(
         json_parse_context_t* context,
         json_value_t* value) {
     do {
@@ -428,7 +428,7 @@ static void json_parse_context_set_value(
 
         if (context->stack == NULL) {
             json_parse_context_set_root(context, value);
-            return;
+            return true;
         }
 
         // stack exists, but no value set. should never get here
@@ -446,7 +446,7 @@ static void json_parse_context_set_value(
             }
 
             json_map_set_value(obj, value);
-            return;
+            return true;
         }
 
         // array
@@ -457,8 +457,12 @@ static void json_parse_context_set_value(
                 break;
             }
 
-            json_array_add(arr, value);
-            return;
+            if (json_array_add(arr, value) == NULL) {
+                ERROR("json_array_add failed");
+                break;
+            }
+
+            return true;
         }
 
         ERROR("Invalid context stack state detected");
@@ -466,25 +470,24 @@ static void json_parse_context_set_value(
 
     // since an error was detected, free the val
     json_value_free(value);
+    return false;
 }
 
-static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
+static bool json_parse_context_pop(json_parse_context_t* context) {
     if (context == NULL) {
         ERROR("NULL context");
-        return NULL;
+        return false;
     }
 
     if (context->stack == NULL) {
         ERROR("NULL stack");
-        return NULL;
+        return false;
     }
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
 
-    json_parse_context_set_value(context, value);
-
-    return context->stack;
+    return json_parse_context_set_value(context, value);
 }
 
 static char* string_new(
@@ -687,7 +690,10 @@ static int bool_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -703,7 +709,10 @@ static int double_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -725,7 +734,10 @@ static int integer_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -733,7 +745,10 @@ static int integer_callback(
 static int null_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
 
-    json_parse_context_set_value(session, NULL);
+    if (!json_parse_context_set_value(session, NULL)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -758,7 +773,10 @@ static int string_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
+    if (!json_parse_context_set_value(session, value)) {
+        ERROR("json_parse_context_set_value failed");
+        return 0;
+    }
 
     return 1;
 }
@@ -802,13 +820,20 @@ static int map_key_callback(
         return 0;
     }
 
+    char* key_string = string_new(key, key_length);
+    if (key_string == NULL) {
+        ERROR("string_new failed");
+        return 0;
+    }
+
     json_map_t* new_key_value = json_map_add_key_value((json_map_t*) session->stack->value->payload);
     if (new_key_value == NULL) {
         ERROR("json_map_add_key_value failed");
+        memory_internal_free(key_string);
         return 0;
     }
 
-    json_map_set_key(new_key_value, string_new(key, key_length), key_length);
+    json_map_set_key(new_key_value, key_string, key_length);
 
     return 1;
 }
@@ -834,7 +859,11 @@ static int start_map_callback(void* context) {
 
 static int end_map_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
+    if (!json_parse_context_pop(session)) {
+        ERROR("json_parse_context_pop failed");
+        return 0;
+    }
+
     return 1;
 }
 
@@ -859,7 +888,11 @@ static int start_array_callback(void* context) {
 
 static int end_array_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
+    if (!json_parse_context_pop(session)) {
+        ERROR("json_parse_context_pop failed");
+        return 0;
+    }
+
     return 1;
 }
 
@@ -994,6 +1027,11 @@ json_value_t** json_value_as_array(
     size_t size = json_array_size(array_payload);
 
     json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1029,6 +1067,11 @@ json_key_value_t* json_value_as_map(
     size_t size = json_map_size(map_payload);
 
     json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
-- 
2.43.0


From 0ed1582352e83bd0433134d9541865fe11fca50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 31/54] fix: bound the stack used to free a parsed key
 container

---
 reference/src/taimpl/src/internal/json.c | 75 +++++++++++++-----------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index b60413b..d5c7b98 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -25,6 +25,7 @@
 #include <yajl/yajl_version.h>
 
 #define MAX_KEY_LENGTH 255 // NOLINT
+#define MAX_DEPTH 128      // NOLINT
 
 struct json_value_s {
     json_type_e type;
@@ -110,22 +111,21 @@ static json_map_t* json_map_new() {
 }
 
 static void json_map_free(json_map_t* map) {
-    if (map == NULL) {
-        return;
+    while (map != NULL) {
+        json_map_t* next = map->next;
+        memory_internal_free(map->key);
+        json_value_free(map->value);
+        memory_internal_free(map);
+        map = next;
     }
-
-    memory_internal_free(map->key);
-    json_value_free(map->value);
-    json_map_free(map->next);
-    memory_internal_free(map);
 }
 
 static size_t json_map_size(const json_map_t* map) {
-    if (map->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; map->next != NULL; map = map->next)
+        size++;
 
-    return 1 + json_map_size(map->next);
+    return size;
 }
 
 static json_map_t* json_map_last_key_value(json_map_t* map) {
@@ -133,11 +133,10 @@ static json_map_t* json_map_last_key_value(json_map_t* map) {
         return NULL;
     }
 
-    if (map->next == NULL) {
-        return map;
-    }
+    while (map->next != NULL)
+        map = map->next;
 
-    return json_map_last_key_value(map->next);
+    return map;
 }
 
 static json_map_t* json_map_add_key_value(json_map_t* map) {
@@ -201,21 +200,20 @@ static json_array_t* json_array_new() {
 }
 
 static void json_array_free(json_array_t* array) {
-    if (array == NULL) {
-        return;
+    while (array != NULL) {
+        json_array_t* next = array->next;
+        json_value_free(array->value);
+        memory_internal_free(array);
+        array = next;
     }
-
-    json_array_free(array->next);
-    json_value_free(array->value);
-    memory_internal_free(array);
 }
 
 static size_t json_array_size(const json_array_t* array) {
-    if (array->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; array->next != NULL; array = array->next)
+        size++;
 
-    return 1 + json_array_size(array->next);
+    return size;
 }
 
 static void json_array_set_value(json_array_t* array, json_value_t* value) {
@@ -233,11 +231,10 @@ static json_array_t* json_array_last(json_array_t* array) {
         return NULL;
     }
 
-    if (array->next == NULL) {
-        return array;
-    }
+    while (array->next != NULL)
+        array = array->next;
 
-    return json_array_last(array->next);
+    return array;
 }
 
 static json_array_t* json_array_add(
@@ -280,13 +277,12 @@ static json_stack_t* json_stack_new() {
 }
 
 static void json_stack_free(json_stack_t* stack) {
-    if (stack == NULL) {
-        return;
+    while (stack != NULL) {
+        json_stack_t* previous = stack->previous;
+        json_value_free(stack->value);
+        memory_internal_free(stack);
+        stack = previous;
     }
-
-    json_stack_free(stack->previous);
-    json_value_free(stack->value);
-    memory_internal_free(stack);
 }
 
 static void json_stack_set_value(
@@ -332,6 +328,7 @@ static json_stack_t* json_stack_pop(
 typedef struct {
     yajl_handle yajl;
     json_stack_t* stack;
+    size_t depth;
     json_value_t* root;
 } json_parse_context_t;
 
@@ -404,6 +401,12 @@ static json_stack_t* json_parse_context_push(
         return NULL;
     }
 
+    // json_value_free recurses into nested values
+    if (context->depth >= MAX_DEPTH) {
+        ERROR("Nesting is too deep");
+        return NULL;
+    }
+
     json_stack_t* new_stack = json_stack_push(context->stack);
     if (new_stack == NULL) {
         ERROR("json_stack_push failed");
@@ -413,6 +416,7 @@ static json_stack_t* json_parse_context_push(
     json_stack_set_value(new_stack, val);
 
     context->stack = new_stack;
+    context->depth++;
 
     return context->stack;
 }
@@ -486,6 +490,7 @@ static bool json_parse_context_pop(json_parse_context_t* context) {
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
+    context->depth--;
 
     return json_parse_context_set_value(context, value);
 }
-- 
2.43.0


From 659c4c4ca4fc230a58d8422cdf30681c8e58c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 32/54] fix: leave no partial block in a cipher context whose
 last encryption step failed

---
 reference/src/taimpl/src/internal/symmetric.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 2d50a4d..d65e47c 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -1337,6 +1337,12 @@ sa_status symmetric_context_encrypt_last(
     int final_length = 0;
     if (EVP_EncryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_EncryptFinal failed");
+        // bytes left over in the context would make the output of a next call longer than its caller expects
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
+        EVP_CIPHER_CTX_cleanup(context->evp_cipher);
+#else
+        EVP_CIPHER_CTX_reset(context->evp_cipher);
+#endif
         return SA_STATUS_INTERNAL_ERROR;
     }
 
-- 
2.43.0


From 808c3974222b299642714fa0181a68936c45dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 33/54] fix: check the size of the derivation parameters a
 client sends to the TA

---
 reference/src/taimpl/src/internal/ta.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 1a47888..70575e6 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -766,6 +766,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -784,6 +789,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref and params[3].mem_ref can be null.
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
@@ -802,6 +812,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
@@ -818,6 +833,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
@@ -834,6 +854,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
@@ -850,6 +875,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_netflix_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
-- 
2.43.0


From 87356280eeb75e258e4816acbe03a3b57683f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 34/54] fix: check the type and the size of the parameter that
 names a buffer

---
 reference/src/taimpl/src/internal/ta.c | 50 +++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 70575e6..0677fe1 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -44,6 +44,19 @@ typedef struct {
     ta_client client;
 } ta_session_context;
 
+// A clear buffer is the memory of the parameter, an SVP buffer is a handle in the memory of the parameter.
+static bool invalid_buffer_param(
+        uint32_t buffer_type,
+        bool is_output,
+        uint32_t param_type,
+        const ta_param* param) {
+
+    if (buffer_type == SA_BUFFER_TYPE_CLEAR)
+        return is_output ? CHECK_NOT_TA_PARAM_OUT(param_type) : CHECK_NOT_TA_PARAM_IN(param_type);
+
+    return CHECK_NOT_TA_PARAM_IN(param_type) || param->mem_ref_size != sizeof(sa_svp_buffer);
+}
+
 static sa_status ta_invoke_get_version(
         sa_get_version_s* get_version,
         const uint32_t param_types[NUM_TA_PARAMS],
@@ -1253,7 +1266,8 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_process_s) ||
-            (CHECK_TA_PARAM_INOUT(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
+            (CHECK_NOT_TA_PARAM_OUT(param_types[1]) && CHECK_NOT_TA_PARAM_IN(param_types[1]) &&
+                    CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
             CHECK_NOT_TA_PARAM_IN(param_types[2]) ||
             (CHECK_NOT_TA_PARAM_INOUT(param_types[3]) &&
                     CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
@@ -1272,13 +1286,24 @@ static sa_status ta_invoke_crypto_cipher_process(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref != NULL &&
+            invalid_buffer_param(crypto_cipher_process->out_buffer_type, true, param_types[1], &params[1])) {
+        ERROR("Invalid params[1]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (invalid_buffer_param(crypto_cipher_process->in_buffer_type, false, param_types[2], &params[2])) {
+        ERROR("Invalid params[2]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_buffer out;
     out.buffer_type = crypto_cipher_process->out_buffer_type;
     if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
         out.context.clear.buffer = params[1].mem_ref;
         out.context.clear.length = params[1].mem_ref_size;
         out.context.clear.offset = crypto_cipher_process->out_offset;
-    } else {
+    } else if (params[1].mem_ref != NULL) {
         out.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
         out.context.svp.offset = crypto_cipher_process->out_offset;
     }
@@ -1771,6 +1796,11 @@ static sa_status ta_invoke_svp_key_check(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (invalid_buffer_param(svp_key_check->in_buffer_type, false, param_types[1], &params[1])) {
+        ERROR("Invalid params[1]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_buffer in;
     in.buffer_type = svp_key_check->in_buffer_type;
     if (svp_key_check->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
@@ -1857,17 +1887,27 @@ static sa_status ta_invoke_process_common_encryption(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (invalid_buffer_param(process_common_encryption->out_buffer_type, true, param_types[2], &params[2])) {
+        ERROR("Invalid params[2]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (invalid_buffer_param(process_common_encryption->in_buffer_type, false, param_types[3], &params[3])) {
+        ERROR("Invalid params[3]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0 ||
+                params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
 
-        sample.subsample_lengths =
-                memory_secure_alloc(process_common_encryption->subsample_count * sizeof(sa_subsample_length));
+        sample.subsample_lengths = memory_secure_alloc(sample.subsample_count * sizeof(sa_subsample_length));
         if (sample.subsample_lengths == NULL) {
             ERROR("memory_secure_alloc failed");
             status = SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From a1d79752518ff44187106cd028ded20c36b4210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 35/54] fix: cache the key container a client imports in the TA

---
 reference/src/taimpl/src/internal/ta.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 0677fe1..15a3ee8 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -371,6 +371,11 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
+                if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
                 memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
                 parameters = &parameters_soc;
             }
@@ -381,8 +386,21 @@ static sa_status ta_invoke_key_import(
             parameters = NULL;
     }
 
-    return ta_sa_key_import(&key_import->key, key_import->key_format, params[1].mem_ref, params[1].mem_ref_size,
-            parameters, context->client, uuid);
+    // The key container is read more than once (parsed, authenticated and decrypted), so cache it to prevent Time-of-use
+    // Time-of-check errors.
+    void* in = memory_secure_alloc(params[1].mem_ref_size);
+    if (in == NULL) {
+        ERROR("memory_secure_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    size_t in_length = params[1].mem_ref_size;
+    memcpy(in, params[1].mem_ref, in_length);
+    sa_status status = ta_sa_key_import(&key_import->key, key_import->key_format, in, in_length, parameters,
+            context->client, uuid);
+    memory_memset_unoptimizable(in, 0, in_length);
+    memory_secure_free(in);
+    return status;
 }
 
 static sa_status ta_invoke_key_provision(
-- 
2.43.0


From 654687ed0420b90857c90a3e400082e60262e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 36/54] fix: use the cached ElGamal parameters of a key unwrap

---
 reference/src/taimpl/src/internal/ta.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 15a3ee8..27e0fb3 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -572,6 +572,7 @@ static sa_status ta_invoke_key_unwrap(
     sa_unwrap_parameters_aes_gcm_s parameters_aes_gcm_s;
     sa_unwrap_parameters_chacha20_s parameters_chacha_20_s;
     sa_unwrap_parameters_chacha20_poly1305_s parameters_chacha_20_poly_1305_s;
+    sa_unwrap_parameters_ec_elgamal_s parameters_ec_elgamal_s;
     sa_unwrap_parameters_rsa_oaep_s parameters_rsa_oaep_s;
     sa_unwrap_parameters_aes_cbc parameters_aes_cbc;
     sa_unwrap_parameters_aes_ctr parameters_aes_ctr;
@@ -690,8 +691,10 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            memcpy(&parameters_ec_elgamal, params[2].mem_ref, params[2].mem_ref_size);
-            algorithm_parameters = params[2].mem_ref;
+            memcpy(&parameters_ec_elgamal_s, params[2].mem_ref, params[2].mem_ref_size);
+            parameters_ec_elgamal.offset = parameters_ec_elgamal_s.offset;
+            parameters_ec_elgamal.key_length = parameters_ec_elgamal_s.key_length;
+            algorithm_parameters = &parameters_ec_elgamal;
             break;
 
         case SA_CIPHER_ALGORITHM_RSA_OAEP:
-- 
2.43.0


From 689bcff73acc9bc6180ffe06501b2c808a47efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 37/54] fix: check the parameters of a key provisioning command

---
 reference/src/taimpl/src/internal/ta.c | 136 +++++++++++++++++--------
 1 file changed, 95 insertions(+), 41 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 27e0fb3..9c7597c 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -257,6 +257,35 @@ static sa_status ta_invoke_key_export(
     return status;
 }
 
+// The key container is read more than once (parsed, authenticated and decrypted), so cache it to prevent Time-of-use
+// Time-of-check errors.
+static sa_status import_cached(
+        sa_key* key,
+        sa_key_format key_format,
+        const void* in,
+        size_t in_length,
+        void* parameters,
+        const ta_session_context* context,
+        const sa_uuid* uuid) {
+
+    if (in == NULL || in_length == 0) {
+        ERROR("NULL in");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    void* cached_in = memory_secure_alloc(in_length);
+    if (cached_in == NULL) {
+        ERROR("memory_secure_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    memcpy(cached_in, in, in_length);
+    sa_status status = ta_sa_key_import(key, key_format, cached_in, in_length, parameters, context->client, uuid);
+    memory_memset_unoptimizable(cached_in, 0, in_length);
+    memory_secure_free(cached_in);
+    return status;
+}
+
 static sa_status ta_invoke_key_import(
         sa_key_import_s* key_import,
         const uint32_t param_types[NUM_TA_PARAMS],
@@ -386,21 +415,8 @@ static sa_status ta_invoke_key_import(
             parameters = NULL;
     }
 
-    // The key container is read more than once (parsed, authenticated and decrypted), so cache it to prevent Time-of-use
-    // Time-of-check errors.
-    void* in = memory_secure_alloc(params[1].mem_ref_size);
-    if (in == NULL) {
-        ERROR("memory_secure_alloc failed");
-        return SA_STATUS_INTERNAL_ERROR;
-    }
-
-    size_t in_length = params[1].mem_ref_size;
-    memcpy(in, params[1].mem_ref, in_length);
-    sa_status status = ta_sa_key_import(&key_import->key, key_import->key_format, in, in_length, parameters,
-            context->client, uuid);
-    memory_memset_unoptimizable(in, 0, in_length);
-    memory_secure_free(in);
-    return status;
+    return import_cached(&key_import->key, key_import->key_format, params[1].mem_ref, params[1].mem_ref_size, parameters,
+            context, uuid);
 }
 
 static sa_status ta_invoke_key_provision(
@@ -413,7 +429,7 @@ static sa_status ta_invoke_key_provision(
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) || params[0].mem_ref_size != sizeof(sa_key_provision_ta_s) ||
         CHECK_NOT_TA_PARAM_IN(param_types[1]) ||
         (CHECK_NOT_TA_PARAM_IN(param_types[2]) && CHECK_NOT_TA_PARAM_NULL(param_types[2], params[2])) ||
-        (CHECK_NOT_TA_PARAM_IN(param_types[3]) && CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
+        CHECK_NOT_TA_PARAM_IN(param_types[3])) {
         ERROR("Invalid param[0] or param type");
         return SA_STATUS_INVALID_PARAMETER;
     }
@@ -423,6 +439,16 @@ static sa_status ta_invoke_key_provision(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (params[3].mem_ref == NULL) {
+        ERROR("NULL param[3]");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    if (params[3].mem_ref_size != sizeof(sa_key_type_ta)) {
+        ERROR("params[3].mem_ref_size is invalid");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (key_provision_ta->api_version != API_VERSION) {
         ERROR("Invalid api_version");
         return SA_STATUS_INVALID_PARAMETER;
@@ -436,11 +462,21 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
+        if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+            ERROR("params[2].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
          memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
          parameters = &parameters_soc;
      }
-    
-     sa_key_type_ta ta_key_type = *(int*)(params[3].mem_ref);
+
+     sa_key_type_ta ta_key_type;
+     memcpy(&ta_key_type, params[3].mem_ref, sizeof(ta_key_type));
+
+     WidevineOemProvisioning widevine_oem_provisioning;
+     PlayReadyProvisioning playready_provisioning;
+     NetflixProvisioning netflix_provisioning;
 
      void   *in = NULL;
      size_t in_length = 0;
@@ -450,61 +486,79 @@ static sa_status ta_invoke_key_provision(
      size_t in_wrapping_key_length = 0;
      switch(ta_key_type) {
          case WIDEVINE_OEM_PROVISIONING:
-	      in = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKey;
-	      in_length = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKeyLength;
+              if (params[1].mem_ref_size != sizeof(widevine_oem_provisioning)) {
+                  ERROR("params[1].mem_ref_size is invalid");
+                  return SA_STATUS_INVALID_PARAMETER;
+              }
+
+              memcpy(&widevine_oem_provisioning, params[1].mem_ref, sizeof(widevine_oem_provisioning));
+	      in = widevine_oem_provisioning.oemDevicePrivateKey;
+	      in_length = widevine_oem_provisioning.oemDevicePrivateKeyLength;
 	      
 	      /*TODO SoC Vendor:here just provide an example to pass certificate data,
                 how to use it is all up to SOC vendor.
                */
 	      {
 	           void *oemDeviceCertificate =
-                      ((WidevineOemProvisioning*)params[1].mem_ref)->oemDeviceCertificate;
+                      widevine_oem_provisioning.oemDeviceCertificate;
 	           size_t oemDeviceCertificateLength =
-                      ((WidevineOemProvisioning*)params[1].mem_ref)->oemDeviceCertificateLength;
+                      widevine_oem_provisioning.oemDeviceCertificateLength;
 	           INFO("oemDeviceCertificate:0x%x, oemDeviceCertificateLength:%d",
                       oemDeviceCertificate, oemDeviceCertificateLength);
 	      }
 	      break;
 	  case PLAYREADY_MODEL_PROVISIONING:
-	       in = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKey;
-	       in_length = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKeyLength;
+              if (params[1].mem_ref_size != sizeof(playready_provisioning)) {
+                  ERROR("params[1].mem_ref_size is invalid");
+                  return SA_STATUS_INVALID_PARAMETER;
+              }
+
+              memcpy(&playready_provisioning, params[1].mem_ref, sizeof(playready_provisioning));
+	       in = playready_provisioning.privateKey;
+	       in_length = playready_provisioning.privateKeyLength;
 
 	       /*TODO SoC Vendor:here just provide an example to pass certificate data
                  and model type. How to use them is all up to SOC vendor.
                 */
 	       {
                    void *modelCertificate =
-	              ((PlayReadyProvisioning*)params[1].mem_ref)->modelCertificate;
+	              playready_provisioning.modelCertificate;
 	              size_t modelCertificateLength =
-                      ((PlayReadyProvisioning*)params[1].mem_ref)->modelCertificateLength;
+                      playready_provisioning.modelCertificateLength;
 		   INFO("modelCertificate:0x%x, modelCertificateLength:%d",
                       modelCertificate, modelCertificateLength);
 		   INFO("Model type : %s",
-                      (((PlayReadyProvisioning*)params[1].mem_ref)->modelType == PLAYREADY_MODEL_2K)?
+                      (playready_provisioning.modelType == PLAYREADY_MODEL_2K)?
 		      "model 2000" :
-                      ((((PlayReadyProvisioning*)params[1].mem_ref)->modelType == PLAYREADY_MODEL_3K)?
+                      ((playready_provisioning.modelType == PLAYREADY_MODEL_3K)?
                       "model 3000":
                       "No such model type"));
 	       }
                break;
 	  case NETFLIX_PROVISIONING:
-	       in_hmac = ((NetflixProvisioning*)params[1].mem_ref)->hmacKey;
-	       in_hmac_length = ((NetflixProvisioning*)params[1].mem_ref)->hmacKeyLength;
-	       in_wrapping_key = ((NetflixProvisioning*)params[1].mem_ref)->wrappingKey;
-	       in_wrapping_key_length = ((NetflixProvisioning*)params[1].mem_ref)->wrappingKeyLength;
+              if (params[1].mem_ref_size != sizeof(netflix_provisioning)) {
+                  ERROR("params[1].mem_ref_size is invalid");
+                  return SA_STATUS_INVALID_PARAMETER;
+              }
+
+              memcpy(&netflix_provisioning, params[1].mem_ref, sizeof(netflix_provisioning));
+	       in_hmac = netflix_provisioning.hmacKey;
+	       in_hmac_length = netflix_provisioning.hmacKeyLength;
+	       in_wrapping_key = netflix_provisioning.wrappingKey;
+	       in_wrapping_key_length = netflix_provisioning.wrappingKeyLength;
 
 	       /*TODO SoC Vendor:here just provide an example to pass ESN data,
                  how to use it is all up to SOC vendor.
                 */
               {
-	         void *esn = ((NetflixProvisioning*)params[1].mem_ref)->esnContainer;
-	         size_t esnLength = ((NetflixProvisioning*)params[1].mem_ref)->esnContainerLength;
+	         void *esn = netflix_provisioning.esnContainer;
+	         size_t esnLength = netflix_provisioning.esnContainerLength;
 	         INFO("esn:0x%x, esnLength:%d", esn, esnLength);
 	      }
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+              return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
@@ -512,11 +566,11 @@ static sa_status ta_invoke_key_provision(
      sa_status status = SA_STATUS_OK;
      if (WIDEVINE_OEM_PROVISIONING == ta_key_type ||
 	 PLAYREADY_MODEL_PROVISIONING == ta_key_type) {	
-         status = ta_sa_key_import(&key_provision_ta->key, key_provision_ta->key_format,
-	    in,in_length,parameters, context->client, uuid);
+         status = import_cached(&key_provision_ta->key, key_provision_ta->key_format,
+	    in,in_length,parameters, context, uuid);
      } else if (NETFLIX_PROVISIONING == ta_key_type) {
-         status = ta_sa_key_import(&key_provision_ta->key, key_provision_ta->key_format,
-	    in_hmac,in_hmac_length, parameters, context->client, uuid);
+         status = import_cached(&key_provision_ta->key, key_provision_ta->key_format,
+	    in_hmac,in_hmac_length, parameters, context, uuid);
 
          if (SA_STATUS_OK != status) {
 	     ERROR("ta_sa_key_import failed");
@@ -532,8 +586,8 @@ static sa_status ta_invoke_key_provision(
                  return status;
              }
          }
-         status = ta_sa_key_import(&key_provision_ta->key, key_provision_ta->key_format,
-	        in_wrapping_key,in_wrapping_key_length,parameters, context->client, uuid);
+         status = import_cached(&key_provision_ta->key, key_provision_ta->key_format,
+	        in_wrapping_key,in_wrapping_key_length,parameters, context, uuid);
     }
     INFO("key_provision_ta->key: %d, 0x%x", key_provision_ta->key, &key_provision_ta->key);
     return status;
-- 
2.43.0


From c660601e9234386dbf2539f5f1445d046ed473a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 38/54] fix: check that a key header command has room for the
 header

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 9c7597c..70da909 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1081,6 +1081,11 @@ static sa_status ta_invoke_key_header(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref == NULL) {
+        ERROR("NULL params[1].mem_ref");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
     sa_header header;
     memory_memset_unoptimizable(&header, 0, sizeof(sa_header));
     sa_status status = ta_sa_key_header(&header, key_header->key, context->client, uuid);
-- 
2.43.0


From e591fc58828254eff56c89279954f9316c5e2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 39/54] fix: do not overflow the pattern lengths of common
 decryption

---
 reference/src/taimpl/src/internal/cenc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 7757c18..6bcac2e 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -343,8 +343,7 @@ sa_status cenc_process_sample(
                     while (bytes_left >= AES_BLOCK_SIZE) {
                         // Calculate the number of bytes in the encrypted pattern stripe and decrypt them into the
                         // output buffer. Account for any remainder partial block at the end of the protected data.
-                        size_t block = MIN(sample->crypt_byte_block * AES_BLOCK_SIZE,
-                                (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                        size_t block = MIN(sample->crypt_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                         if (block > 0) {
                             status = decrypt(out_bytes + offset, in_bytes + offset, block, &enc_byte_count, iv,
                                     cipher_algorithm, symmetric_context);
@@ -360,8 +359,7 @@ sa_status cenc_process_sample(
                         // Calculate the number of bytes in the skipped pattern stripe and copy them into the output
                         // buffer. Account for any remainder partial block at the end of the protected data.
                         if (sample->skip_byte_block > 0) {
-                            block = MIN(sample->skip_byte_block * AES_BLOCK_SIZE,
-                                    (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                            block = MIN(sample->skip_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                             if (block > 0) {
                                 memcpy(out_bytes + offset, in_bytes + offset, block);
                                 offset += block;
-- 
2.43.0


From 12885e8115abc9790a3c609380fddb47f38c3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 40/54] fix: do not use a provisioning command that could not
 be allocated

---
 reference/src/clientimpl/src/sa_key_provision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_provision.c b/reference/src/clientimpl/src/sa_key_provision.c
index 74f808e..2971d00 100644
--- a/reference/src/clientimpl/src/sa_key_provision.c
+++ b/reference/src/clientimpl/src/sa_key_provision.c
@@ -99,7 +99,7 @@ sa_status sa_key_provision_ta (
     } while (false);
 
     // ATTENTION: If you dont release the key, you will get resource leaked.
-    if (INVALID_HANDLE != key_provision_ta->key) {
+    if (key_provision_ta != NULL && INVALID_HANDLE != key_provision_ta->key) {
         sa_key_release(key_provision_ta->key);
     }
     RELEASE_COMMAND(key_provision_ta);
-- 
2.43.0


From 4223dfcaf947e825d836dd8327321694f51f25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 41/54] fix: do not leave a provisioned key in the key store

---
 reference/src/taimpl/src/internal/ta.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 70da909..1e99fe7 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -581,6 +581,7 @@ static sa_status ta_invoke_key_provision(
 	  */
          if (INVALID_HANDLE != key_provision_ta->key) {
 	     status = ta_sa_key_release(key_provision_ta->key, context->client,uuid);
+             key_provision_ta->key = INVALID_HANDLE;
              if (SA_STATUS_OK != status) {
                  ERROR("ta_sa_key_import failed");
                  return status;
@@ -590,6 +591,13 @@ static sa_status ta_invoke_key_provision(
 	        in_wrapping_key,in_wrapping_key_length,parameters, context, uuid);
     }
     INFO("key_provision_ta->key: %d, 0x%x", key_provision_ta->key, &key_provision_ta->key);
+
+    // The provisioned key is not kept in the key store. Do not rely on the caller to release it.
+    if (SA_STATUS_OK == status && INVALID_HANDLE != key_provision_ta->key) {
+        status = ta_sa_key_release(key_provision_ta->key, context->client, uuid);
+        key_provision_ta->key = INVALID_HANDLE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From 808a518e84523df875cbbe78065574ecf502b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 42/54] fix: provider load leaves no half-built context and no
 held lock behind

An error while the OpenSSL provider was loaded returned with the mutex still
locked, so the next caller blocked for ever, and with a library context that
does not have the provider.
---
 reference/src/client/src/sa_provider.c | 56 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/reference/src/client/src/sa_provider.c b/reference/src/client/src/sa_provider.c
index 026eec8..080a6b3 100644
--- a/reference/src/client/src/sa_provider.c
+++ b/reference/src/client/src/sa_provider.c
@@ -187,7 +187,7 @@ static int sa_provider_init(
         }
     }
 
-    if (*core_get_libctx == NULL) {
+    if (core_get_libctx == NULL) {
         ERROR("OSSL_FUNC_core_get_libctx failed");
         return 0;
     }
@@ -234,6 +234,7 @@ static void sa_provider_shutdown() {
 static void sa_provider_load() {
     if (mtx_init(&mutex, mtx_plain | mtx_recursive) != thrd_success) {
         ERROR("mtx_init failed");
+        return;
     }
 
     if (mtx_lock(&mutex) != 0) {
@@ -241,31 +242,44 @@ static void sa_provider_load() {
         return;
     }
 
-    lib_ctx = OSSL_LIB_CTX_new();
-    if (lib_ctx == NULL) {
-        ERROR("OSSL_LIB_CTX_new failed");
-        return;
-    }
+    do {
+        lib_ctx = OSSL_LIB_CTX_new();
+        if (lib_ctx == NULL) {
+            ERROR("OSSL_LIB_CTX_new failed");
+            break;
+        }
 
-    if (OSSL_PROVIDER_add_builtin(lib_ctx, SA_PROVIDER_ID, sa_provider_init) != 1) {
-        ERROR("OSSL_PROVIDER_add_builtin failed");
-        return;
-    }
+        if (OSSL_PROVIDER_add_builtin(lib_ctx, SA_PROVIDER_ID, sa_provider_init) != 1) {
+            ERROR("OSSL_PROVIDER_add_builtin failed");
+            break;
+        }
 
-    base_provider = OSSL_PROVIDER_load(lib_ctx, "base");
-    if (base_provider == NULL) {
-        ERROR("OSSL_PROVIDER_load failed");
-        return;
-    }
+        base_provider = OSSL_PROVIDER_load(lib_ctx, "base");
+        if (base_provider == NULL) {
+            ERROR("OSSL_PROVIDER_load failed");
+            break;
+        }
+
+        sa_provider = OSSL_PROVIDER_load(lib_ctx, SA_PROVIDER_ID);
+        if (sa_provider == NULL) {
+            ERROR("OSSL_PROVIDER_load failed");
+            break;
+        }
+
+        if (atexit(sa_provider_shutdown) != 0) {
+            ERROR("atexit failed");
+        }
+    } while (false);
 
-    sa_provider = OSSL_PROVIDER_load(lib_ctx, SA_PROVIDER_ID);
     if (sa_provider == NULL) {
-        ERROR("OSSL_PROVIDER_load failed");
-        return;
-    }
+        // A library context without the provider is of no use to the caller.
+        if (base_provider != NULL) {
+            OSSL_PROVIDER_unload(base_provider);
+            base_provider = NULL;
+        }
 
-    if (atexit(sa_provider_shutdown) != 0) {
-        ERROR("atexit failed");
+        OSSL_LIB_CTX_free(lib_ctx);
+        lib_ctx = NULL;
     }
 
     mtx_unlock(&mutex);
-- 
2.43.0


From 321edc596d46ac1f46701ef9fda286ef871f7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 43/54] fix: provider keys are compared, imported and exported
 correctly

keymgmt_match compared a key with itself, keymgmt_has ignored the selection,
keymgmt_import released handles the application still owns and leaked the
ones it created, silently dropped a private key that could not be encoded,
and keymgmt_export had no result for a key without a private part. Group
names such as prime256v1 were not recognised on import.
---
 reference/src/client/src/sa_provider_keymgt.c | 159 +++++++++++-------
 1 file changed, 95 insertions(+), 64 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 2ceb34d..879d091 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -129,50 +129,6 @@ ossl_unused static OSSL_FUNC_keymgmt_gen_settable_params_fn keymgmt_ed448_gen_se
 ossl_unused static OSSL_FUNC_keymgmt_gen_fn keymgmt_gen;
 ossl_unused static OSSL_FUNC_keymgmt_gen_cleanup_fn keymgmt_gen_cleanup;
 
-static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
-    int type = EVP_PKEY_get_id(evp_pkey);
-    char group_name[MAX_NAME_SIZE];
-    size_t group_name_length = 0;
-
-    switch (type) {
-        case EVP_PKEY_X25519:
-            return SA_ELLIPTIC_CURVE_X25519;
-
-        case EVP_PKEY_X448:
-            return SA_ELLIPTIC_CURVE_X448;
-
-        case EVP_PKEY_ED25519:
-            return SA_ELLIPTIC_CURVE_ED25519;
-
-        case EVP_PKEY_ED448:
-            return SA_ELLIPTIC_CURVE_ED448;
-
-        case EVP_PKEY_EC:
-            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
-                return UINT32_MAX;
-
-            if (strcmp(group_name, "P-192") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P192;
-
-            if (strcmp(group_name, "P-224") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P224;
-
-            if (strcmp(group_name, "P-256") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P256;
-
-            if (strcmp(group_name, "P-384") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P384;
-
-            if (strcmp(group_name, "P-521") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P521;
-
-            return UINT32_MAX;
-
-        default:
-            return UINT32_MAX;
-    }
-}
-
 static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     if (strcmp("prime192v1", name) == 0 || strcmp("P-192", name) == 0)
         return SA_ELLIPTIC_CURVE_NIST_P192;
@@ -204,6 +160,35 @@ static sa_elliptic_curve ec_get_curve_from_name(const char* name) {
     return UINT32_MAX;
 }
 
+static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
+    int type = EVP_PKEY_get_id(evp_pkey);
+    char group_name[MAX_NAME_SIZE];
+    size_t group_name_length = 0;
+
+    switch (type) {
+        case EVP_PKEY_X25519:
+            return SA_ELLIPTIC_CURVE_X25519;
+
+        case EVP_PKEY_X448:
+            return SA_ELLIPTIC_CURVE_X448;
+
+        case EVP_PKEY_ED25519:
+            return SA_ELLIPTIC_CURVE_ED25519;
+
+        case EVP_PKEY_ED448:
+            return SA_ELLIPTIC_CURVE_ED448;
+
+        case EVP_PKEY_EC:
+            if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
+                return UINT32_MAX;
+
+            return ec_get_curve_from_name(group_name);
+
+        default:
+            return UINT32_MAX;
+    }
+}
+
 static void* keymgmt_new(
         int type,
         const char* name,
@@ -265,7 +250,7 @@ static void* keymgmt_dup(
 
 static int keymgmt_has(
         const void* keydata,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata == NULL) {
         ERROR("NULL keydata");
@@ -273,13 +258,19 @@ static int keymgmt_has(
     }
 
     const sa_provider_key_data* key_data = keydata;
-    return key_data->private_key != INVALID_HANDLE;
+    if ((selection & OSSL_KEYMGMT_SELECT_PRIVATE_KEY) != 0 && key_data->private_key == INVALID_HANDLE)
+        return 0;
+
+    if ((selection & OSSL_KEYMGMT_SELECT_PUBLIC_KEY) != 0 && key_data->public_key == NULL)
+        return 0;
+
+    return 1;
 }
 
 static int keymgmt_match(
         const void* keydata1,
         const void* keydata2,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata1 == NULL) {
         ERROR("NULL keydata1");
@@ -292,8 +283,23 @@ static int keymgmt_match(
     }
 
     const sa_provider_key_data* key_data1 = keydata1;
-    const sa_provider_key_data* key_data2 = keydata1;
-    return key_data1->private_key == key_data2->private_key;
+    const sa_provider_key_data* key_data2 = keydata2;
+    if (key_data1->private_key != INVALID_HANDLE && key_data1->private_key == key_data2->private_key)
+        return 1;
+
+    // Two handles can hold the same key, so compare the public keys, which a private key always has.
+    if (key_data1->public_key != NULL && key_data2->public_key != NULL) {
+        if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+            return EVP_PKEY_eq(key_data1->public_key, key_data2->public_key) == 1;
+
+        return EVP_PKEY_parameters_eq(key_data1->public_key, key_data2->public_key) == 1;
+    }
+
+    if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+        return 0;
+
+    return memcmp(&key_data1->private_key_header.type_parameters, &key_data2->private_key_header.type_parameters,
+                   sizeof(sa_type_parameters)) == 0;
 }
 
 static int keymgmt_import(
@@ -315,6 +321,8 @@ static int keymgmt_import(
     BIGNUM* g = NULL;
     sa_key private_key = INVALID_HANDLE;
     int delete_key = 0;
+    bool imported = false;
+    EVP_PKEY* public_key = NULL;
     sa_header private_key_header;
     memset(&private_key_header, 0, sizeof(sa_header));
     do {
@@ -347,7 +355,13 @@ static int keymgmt_import(
 
                 size_t pkcs8_length = 0;
                 // Check if a private key is available and if so import it. If not include only the public key.
-                if (evp_pkey_to_pkcs8(NULL, &pkcs8_length, evp_pkey)) {
+                if (OSSL_PARAM_locate_const(params, OSSL_PKEY_PARAM_PRIV_KEY) != NULL ||
+                        OSSL_PARAM_locate_const(params, OSSL_PKEY_PARAM_RSA_D) != NULL) {
+                    if (!evp_pkey_to_pkcs8(NULL, &pkcs8_length, evp_pkey)) {
+                        ERROR("evp_pkey_to_pkcs8 failed");
+                        break;
+                    }
+
                     pkcs8 = OPENSSL_malloc(pkcs8_length);
                     if (pkcs8 == NULL) {
                         ERROR("OPENSSL_malloc failed");
@@ -396,7 +410,9 @@ static int keymgmt_import(
 
                     // Free the private key, public key will be reloaded below.
                     EVP_PKEY_free(evp_pkey);
+                    evp_pkey = NULL;
                     delete_key = 1;
+                    imported = true;
                 }
             }
         }
@@ -414,8 +430,9 @@ static int keymgmt_import(
                 break;
             }
 
+            // A key imported above belongs to the provider, so is always deleted.
             const OSSL_PARAM* sa_key_delete_param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-            if (sa_key_delete_param != NULL) {
+            if (sa_key_delete_param != NULL && !imported) {
                 if (OSSL_PARAM_get_int(sa_key_delete_param, &delete_key) != 1) {
                     ERROR("OSSL_PARAM_get_int failed");
                     break;
@@ -434,7 +451,11 @@ static int keymgmt_import(
 
                     if (OSSL_PARAM_get_BN(g_param, &g) != 1) {
                         ERROR("OSSL_PARAM_get_BN failed");
-                        BN_free(p);
+                        break;
+                    }
+
+                    if (BN_num_bytes(p) > DH_MAX_MOD_SIZE || BN_num_bytes(g) > DH_MAX_MOD_SIZE) {
+                        ERROR("Invalid DH parameters");
                         break;
                     }
 
@@ -494,12 +515,20 @@ static int keymgmt_import(
             }
         }
 
-        if (key_data->private_key != INVALID_HANDLE)
+        if (evp_pkey != NULL) {
+            public_key = EVP_PKEY_dup(evp_pkey);
+            if (public_key == NULL) {
+                ERROR("EVP_PKEY_dup failed");
+                break;
+            }
+        }
+
+        if (key_data->delete_key && key_data->private_key != INVALID_HANDLE)
             sa_key_release(key_data->private_key);
 
         EVP_PKEY_free(key_data->public_key);
         key_data->private_key = private_key;
-        key_data->public_key = EVP_PKEY_dup(evp_pkey);
+        key_data->public_key = public_key;
         memcpy(&key_data->private_key_header, &private_key_header, sizeof(sa_header));
         key_data->delete_key = delete_key;
 
@@ -511,16 +540,8 @@ static int keymgmt_import(
     EVP_PKEY_free(evp_pkey);
     BN_free(p);
     BN_free(g);
-    if (result != 1) {
-        if (key_data->private_key != INVALID_HANDLE) {
-            sa_key_release(key_data->private_key);
-            key_data->private_key = INVALID_HANDLE;
-        }
-
-        EVP_PKEY_free(key_data->public_key);
-        key_data->public_key = NULL;
-        memset(&key_data->private_key_header, 0, sizeof(sa_header));
-    }
+    if (result != 1 && imported)
+        sa_key_release(private_key);
 
     return result;
 }
@@ -563,6 +584,16 @@ static int keymgmt_export(
             break;
         }
 
+        if (key_data->private_key == INVALID_HANDLE) {
+            if (param_cb(public_key_params, cbarg) != 1) {
+                ERROR("param_cb failed");
+                break;
+            }
+
+            result = 1;
+            break;
+        }
+
         merged_params = OSSL_PARAM_merge(private_key_params, public_key_params);
         if (merged_params == NULL) {
             ERROR("NULL merged_params");
-- 
2.43.0


From 357b38dfbd9cdfe9bda91ba491bdb88009bd4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 44/54] fix: provider MAC contexts release only the keys they
 own

A key handle passed by the application was released, a failed init left a
stale handle behind, and the previous digest was leaked.
---
 reference/src/client/src/sa_provider_mac.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index ff7570d..44305b9 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -115,9 +115,11 @@ static int mac_init(
         }
 
         if (key != NULL) {
-            if (mac_context->key != INVALID_HANDLE)
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
                 sa_key_release(mac_context->key);
 
+            mac_context->key = INVALID_HANDLE;
+            mac_context->delete_key = false;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -127,13 +129,14 @@ static int mac_init(
                 break;
             }
 
+            mac_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
                 break;
             }
 
-            mac_context->delete_key = true;
+
         }
 
         if (mac_set_ctx_params(mctx, params) != 1) {
@@ -149,6 +152,10 @@ static int mac_init(
         sa_mac_parameters_hmac parameters_hmac;
         void* parameters = NULL;
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
+            if (mac_context->evp_md == NULL) {
+                ERROR("NULL evp_md");
+                break;
+            }
 
             parameters_hmac.digest_algorithm = digest_algorithm_from_name(EVP_MD_get0_name(mac_context->evp_md));
             parameters = &parameters_hmac;
@@ -294,6 +301,7 @@ static int mac_set_ctx_params(
             properties[0] = 0;
         }
 
+        EVP_MD_free(mac_context->evp_md);
         mac_context->evp_md = EVP_MD_fetch(mac_context->provider_context->lib_ctx, name, properties);
         if (mac_context->evp_md == NULL) {
             ERROR("EVP_MD_fetch failed");
@@ -309,15 +317,19 @@ static int mac_set_ctx_params(
             return 0;
         }
 
-        if (mac_context->key != INVALID_HANDLE)
-            sa_key_release(mac_context->key);
-
-        mac_context->key = key;
         sa_header header;
-        if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
+        if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
+
+        if (mac_context->key != key) {
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+                sa_key_release(mac_context->key);
+
+            mac_context->key = key;
+            mac_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 06e94a7d3037ea2e90a5023622a9714cb2c608e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 45/54] fix: provider digest context copies keep their size

The duplicate copied its own zero digest size, and the gettable and settable
parameter lists were exchanged.
---
 reference/src/client/src/sa_provider_digest.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_digest.c b/reference/src/client/src/sa_provider_digest.c
index 044ac8c..b9d1073 100644
--- a/reference/src/client/src/sa_provider_digest.c
+++ b/reference/src/client/src/sa_provider_digest.c
@@ -144,7 +144,7 @@ static void* digest_dupctx(void* dctx) {
         }
 
         new_digest_context->provider_context = digest_context->provider_context;
-        new_digest_context->digest_size = new_digest_context->digest_size;
+        new_digest_context->digest_size = digest_context->digest_size;
         return new_digest_context;
     } while (false);
 
@@ -303,7 +303,7 @@ static const OSSL_PARAM* digest_gettable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
 }
 
 static const OSSL_PARAM* digest_settable_ctx_params(
@@ -316,7 +316,7 @@ static const OSSL_PARAM* digest_settable_ctx_params(
     }
 
     sa_provider_digest_context* digest_context = dctx;
-    return EVP_MD_CTX_gettable_params(digest_context->evp_md_ctx);
+    return EVP_MD_CTX_settable_params(digest_context->evp_md_ctx);
 }
 
 #define SA_PROVIDER_DIGEST_FUNCTIONS(algorithm, name, length) \
-- 
2.43.0


From ca1c8bd31a96fbf8471e14b80ace6f06dfeb83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 46/54] fix: provider KDF contexts own their key, can be copied
 and reset

A key handle passed by the application was released, a copied context lost
its algorithm and key, reset kept lengths of freed buffers, and the CMAC KDF
counter counted the blocks of the output.
---
 reference/src/client/src/sa_provider_kdf.c | 50 +++++++++++++++-------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index aaa2c93..2176f52 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -120,6 +120,8 @@ void* kdf_dupctx(void* kctx) {
     }
 
     new_kdf_context->provider_context = kdf_context->provider_context;
+    new_kdf_context->kdf_algorithm = kdf_context->kdf_algorithm;
+    new_kdf_context->key = INVALID_HANDLE;
     new_kdf_context->digest_algorithm = kdf_context->digest_algorithm;
     new_kdf_context->use_separator = kdf_context->use_separator;
     new_kdf_context->use_l = kdf_context->use_l;
@@ -147,12 +149,13 @@ void* kdf_dupctx(void* kctx) {
         memcpy(new_kdf_context->info, kdf_context->info, kdf_context->info_length);
     }
 
-    if (new_kdf_context->delete_key) {
+    if (!kdf_context->delete_key || kdf_context->key == INVALID_HANDLE) {
+        new_kdf_context->key = kdf_context->key;
+    } else {
         // We are managing the lifetime of the key, so copy the key by exporting and reimporting it.
         size_t exported_key_length = 0;
-        if (sa_key_export(NULL, &exported_key_length, NULL, 0, new_kdf_context->key) != SA_STATUS_OK) {
+        if (sa_key_export(NULL, &exported_key_length, NULL, 0, kdf_context->key) != SA_STATUS_OK) {
             ERROR("sa_key_export failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -160,7 +163,6 @@ void* kdf_dupctx(void* kctx) {
         uint8_t* exported_key = OPENSSL_malloc(exported_key_length);
         if (exported_key == NULL) {
             ERROR("OPENSSL_malloc failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -180,6 +182,8 @@ void* kdf_dupctx(void* kctx) {
             kdf_freectx(new_kdf_context);
             return NULL;
         }
+
+        new_kdf_context->delete_key = true;
     }
 
     return new_kdf_context;
@@ -199,8 +203,11 @@ void kdf_reset(void* kctx) {
     kdf_context->delete_key = false;
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
+    kdf_context->salt_length = 0;
     OPENSSL_free(kdf_context->info);
     kdf_context->info = NULL;
+    kdf_context->info_length = 0;
+    kdf_context->digest_algorithm = UINT32_MAX;
     kdf_context->use_separator = 0;
     kdf_context->use_l = 0;
 }
@@ -273,7 +280,7 @@ int kdf_derive(
 
                 size_t length = kdf_context->salt_length + (kdf_context->use_separator == 1 ? 1 : 0) +
                                 kdf_context->info_length + (kdf_context->use_l == 1 ? 4 : 0);
-                other_data = OPENSSL_malloc(length);
+                other_data = OPENSSL_malloc(length > 0 ? length : 1);
                 if (other_data == NULL) {
                     ERROR("OPENSSL_malloc failed");
                     continue; // NOLINT
@@ -302,7 +309,7 @@ int kdf_derive(
                 }
 
                 parameters_cmac.key_length = keylen;
-                parameters_cmac.counter = (keylen / SYM_128_KEY_SIZE) + (keylen % SYM_128_KEY_SIZE == 0 ? 0 : 1);
+                parameters_cmac.counter = 1;
                 parameters_cmac.parent = kdf_context->key;
                 parameters_cmac.other_data_length = position;
                 parameters_cmac.other_data = other_data;
@@ -375,10 +382,8 @@ int kdf_set_ctx_params(
         return 0;
     }
 
-    if (params == NULL) {
-        ERROR("NULL params");
-        return 0;
-    }
+    if (params == NULL)
+        return 1;
 
     sa_provider_kdf_context* kdf_context = kctx;
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
@@ -391,16 +396,24 @@ int kdf_set_ctx_params(
             return 0;
         }
 
+        if (length != sizeof(sa_key)) {
+            ERROR("Invalid key length");
+            return 0;
+        }
+
         sa_header header;
         if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        if (kdf_context->key != key) {
+            if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+                sa_key_release(kdf_context->key);
 
-        kdf_context->key = key;
+            kdf_context->key = key;
+            kdf_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
@@ -417,10 +430,13 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
+        if (kdf_context->key != key) {
+            if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+                sa_key_release(kdf_context->key);
 
-        kdf_context->key = key;
+            kdf_context->key = key;
+            kdf_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
@@ -450,6 +466,7 @@ int kdf_set_ctx_params(
     if (param != NULL) {
         OPENSSL_free(kdf_context->salt);
         kdf_context->salt = NULL;
+        kdf_context->salt_length = 0;
         if (OSSL_PARAM_get_octet_string(param, &kdf_context->salt, SIZE_MAX, &kdf_context->salt_length) != 1) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
@@ -460,6 +477,7 @@ int kdf_set_ctx_params(
     if (param != NULL) {
         OPENSSL_free(kdf_context->info);
         kdf_context->info = NULL;
+        kdf_context->info_length = 0;
         if (OSSL_PARAM_get_octet_string(param, &kdf_context->info, SIZE_MAX, &kdf_context->info_length) != 1) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
-- 
2.43.0


From ef613f971d1feb78acb2544b77e382f9530df4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 47/54] fix: provider key exchange contexts can be reused and
 copied

Re-initialising or setting a peer again leaked the previous key, copying a
context without a peer dereferenced NULL, derive without a peer did too, and
an int was written through a size_t that was not initialised.
---
 .../src/client/src/sa_provider_keyexch.c      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 8e9a962..bfd87fa 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -95,8 +95,12 @@ void* keyexch_dupctx(void* ctx) {
     }
 
     new_keyexch_context->provider_context = keyexch_context->provider_context;
-    new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
-    new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+    if (keyexch_context->key_data != NULL)
+        new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
+
+    if (keyexch_context->peer_key_data != NULL)
+        new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+
     return new_keyexch_context;
 }
 
@@ -116,7 +120,9 @@ int keyexch_init(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
-    keyexch_context->key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(keyexch_context->key_data);
+    keyexch_context->key_data = key_data;
     return keyexch_set_ctx_params(keyexch_context, params);
 }
 
@@ -147,10 +153,15 @@ int keyexch_derive(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    if (keyexch_context->key_data == NULL || keyexch_context->peer_key_data == NULL) {
+        ERROR("NULL key_data");
+        return 0;
+    }
+
     int result = 0;
     sa_key_exchange_algorithm key_exchange_algorithm;
     uint8_t* other_public = NULL;
-    size_t other_public_length;
+    int other_public_length;
     do {
         if (keyexch_context->key_data->type == EVP_PKEY_DH) {
             key_exchange_algorithm = SA_KEY_EXCHANGE_ALGORITHM_DH;
@@ -184,7 +195,8 @@ int keyexch_derive(
 
         sa_rights rights;
         sa_rights_set_allow_all(&rights);
-        sa_status status = sa_key_exchange((sa_key*) secret, &rights, key_exchange_algorithm,
+        sa_key shared_secret;
+        sa_status status = sa_key_exchange(&shared_secret, &rights, key_exchange_algorithm,
                 keyexch_context->key_data->private_key, other_public, other_public_length, NULL);
         if (status == SA_STATUS_OPERATION_NOT_SUPPORTED) {
             ERROR("sa_key_exchange operation not supported");
@@ -196,6 +208,7 @@ int keyexch_derive(
             break;
         }
 
+        memcpy(secret, &shared_secret, sizeof(sa_key));
         *secretlen = sizeof(sa_key);
         result = 1;
     } while (false);
@@ -219,7 +232,9 @@ int keyexch_set_peer(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
-    keyexch_context->peer_key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* peer_key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(keyexch_context->peer_key_data);
+    keyexch_context->peer_key_data = peer_key_data;
     return 1;
 }
 
-- 
2.43.0


From ed3273e65728306da6f62a7f44c710e9e76ae4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 48/54] fix: provider cipher contexts handle split AAD, partial
 blocks and reuse

AAD given in several calls kept only the first part, data following a partial
block read past the input and was written over the earlier output, a
re-initialised context kept bytes of the previous message, and a key handle
passed by the application was released.
---
 reference/src/client/src/sa_provider_cipher.c | 229 ++++++++++--------
 1 file changed, 133 insertions(+), 96 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 746bf0a..9de7ec8 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -50,6 +50,8 @@ typedef struct {
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
+    uint8_t* aad;
+    size_t aad_length;
 } sa_provider_cipher_context;
 
 ossl_unused static OSSL_FUNC_cipher_newctx_fn cipher_aes_ecb_128_newctx;
@@ -132,6 +134,7 @@ static void cipher_freectx(void* cctx) {
 
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
+    OPENSSL_free(cipher_context->aad);
     OPENSSL_free(cipher_context);
 }
 
@@ -158,6 +161,13 @@ static int cipher_init(
             cipher_context->cipher_context = INVALID_HANDLE;
         }
 
+        // Nothing is left over from the previous use of the context.
+        OPENSSL_cleanse(cipher_context->remaining_block, sizeof(cipher_context->remaining_block));
+        cipher_context->remaining_block_length = 0;
+        OPENSSL_free(cipher_context->aad);
+        cipher_context->aad = NULL;
+        cipher_context->aad_length = 0;
+
         if (iv != NULL) {
             if (ivlen > AES_BLOCK_SIZE) {
                 ERROR("Invalid IV length");
@@ -168,9 +178,11 @@ static int cipher_init(
         }
 
         if (key != NULL) {
-            if (cipher_context->key != INVALID_HANDLE)
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
                 sa_key_release(cipher_context->key);
 
+            cipher_context->key = INVALID_HANDLE;
+            cipher_context->delete_key = false;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -180,6 +192,7 @@ static int cipher_init(
                 break;
             }
 
+            cipher_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, cipher_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
@@ -190,8 +203,6 @@ static int cipher_init(
                 ERROR("Key size mismtach for algorithm");
                 break;
             }
-
-            cipher_context->delete_key = true;
         }
 
         if (cipher_set_ctx_params(cctx, params) != 1) {
@@ -233,6 +244,17 @@ static int cipher_update(
         size_t outsize,
         const unsigned char* in,
         size_t inl) {
+    if (in == NULL) {
+        if (outl == NULL) {
+            ERROR("NULL outl");
+            return 0;
+        }
+
+        // Only the final call finishes the operation.
+        *outl = 0;
+        return 1;
+    }
+
     return cipher_cipher(cctx, out, outl, outsize, in, inl);
 }
 
@@ -270,16 +292,31 @@ static int cipher_cipher(
             break;
         }
 
-        if (cipher_context->cipher_context == INVALID_HANDLE) {
-            void* aad = NULL;
-            size_t aad_length;
-            if (out == NULL) {
-                aad = (void*) in;
-                aad_length = inl;
-            } else {
-                aad_length = 0;
+        if (out == NULL) {
+            // The whole AAD is needed to initialize the SecApi 3 context, so collect it until there is data to process.
+            if (in != NULL && inl > 0) {
+                if (cipher_context->cipher_context != INVALID_HANDLE) {
+                    ERROR("AAD follows data");
+                    break;
+                }
+
+                uint8_t* aad = OPENSSL_realloc(cipher_context->aad, cipher_context->aad_length + inl);
+                if (aad == NULL) {
+                    ERROR("OPENSSL_realloc failed");
+                    break;
+                }
+
+                memcpy(aad + cipher_context->aad_length, in, inl);
+                cipher_context->aad = aad;
+                cipher_context->aad_length += inl;
             }
 
+            *outl = 0;
+            result = 1;
+            break;
+        }
+
+        if (cipher_context->cipher_context == INVALID_HANDLE) {
             sa_cipher_parameters_aes_cbc parameters_aes_cbc;
             sa_cipher_parameters_aes_ctr parameters_aes_ctr;
             sa_cipher_parameters_chacha20 parameters_chacha20;
@@ -316,16 +353,16 @@ static int cipher_cipher(
                 case SA_CIPHER_ALGORITHM_AES_GCM:
                     parameters_aes_gcm.iv = cipher_context->iv;
                     parameters_aes_gcm.iv_length = cipher_context->iv_length;
-                    parameters_aes_gcm.aad = aad;
-                    parameters_aes_gcm.aad_length = aad_length;
+                    parameters_aes_gcm.aad = cipher_context->aad;
+                    parameters_aes_gcm.aad_length = cipher_context->aad_length;
                     parameters = &parameters_aes_gcm;
                     break;
 
                 case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                     parameters_chacha20_poly1305.nonce = cipher_context->iv;
                     parameters_chacha20_poly1305.nonce_length = cipher_context->iv_length;
-                    parameters_chacha20_poly1305.aad = aad;
-                    parameters_chacha20_poly1305.aad_length = aad_length;
+                    parameters_chacha20_poly1305.aad = cipher_context->aad;
+                    parameters_chacha20_poly1305.aad_length = cipher_context->aad_length;
                     parameters = &parameters_chacha20_poly1305;
                     break;
 
@@ -342,93 +379,90 @@ static int cipher_cipher(
         }
 
         size_t total_processed = 0;
-        if (out != NULL) {
-            sa_status status = SA_STATUS_OK;
-            size_t bytes_to_process = 0;
-
-            if (in != NULL) {
-                // Process an update call.
-                sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
-                sa_buffer in_buffer;
-                in_buffer.buffer_type = SA_BUFFER_TYPE_CLEAR;
-
-                size_t total_length = cipher_context->remaining_block_length + inl;
-                size_t position = 0;
-                // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
-                // next time this function is called, start with the remaining data and add data from in to it. Then
-                // process the remainder of in.
-                while (total_length >= cipher_context->block_size) {
-                    if (cipher_context->remaining_block_length > 0) {
-                        // Start with remaining_block and add in to it.
-                        memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
-                                cipher_context->block_size - cipher_context->remaining_block_length);
-                        position += cipher_context->block_size - cipher_context->remaining_block_length;
-                        cipher_context->remaining_block_length = 0;
-
-                        in_buffer.context.clear.buffer = cipher_context->remaining_block;
-                        in_buffer.context.clear.length = AES_BLOCK_SIZE;
-                        in_buffer.context.clear.offset = 0;
-                        bytes_to_process = AES_BLOCK_SIZE;
-                    } else {
-                        // Process data from in.
-                        in_buffer.context.clear.buffer = (void*) in;
-                        in_buffer.context.clear.length = inl;
-                        in_buffer.context.clear.offset = position;
-                        bytes_to_process = ((inl - position) / cipher_context->block_size) * cipher_context->block_size;
-                        position += bytes_to_process;
-                    }
-
-                    if (bytes_to_process % cipher_context->block_size == 0) {
-                        total_length -= bytes_to_process;
-                        status = sa_crypto_cipher_process(&out_buffer, cipher_context->cipher_context,
-                                &in_buffer, &bytes_to_process);
-                        total_processed += bytes_to_process;
-                    }
+        sa_status status = SA_STATUS_OK;
+        size_t bytes_to_process = 0;
+
+        if (in != NULL) {
+            // Process an update call.
+            sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
+            sa_buffer in_buffer;
+            in_buffer.buffer_type = SA_BUFFER_TYPE_CLEAR;
+
+            // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
+            // next time this function is called, start with the remaining data and add data from in to it. Then
+            // process the remainder of in.
+            size_t position = 0;
+            while (cipher_context->remaining_block_length + inl - position >= cipher_context->block_size) {
+                if (cipher_context->remaining_block_length > 0) {
+                    // Start with remaining_block and add in to it.
+                    size_t missing = cipher_context->block_size - cipher_context->remaining_block_length;
+                    memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                            missing);
+                    position += missing;
+                    cipher_context->remaining_block_length = 0;
+
+                    in_buffer.context.clear.buffer = cipher_context->remaining_block;
+                    in_buffer.context.clear.length = AES_BLOCK_SIZE;
+                    in_buffer.context.clear.offset = 0;
+                    bytes_to_process = AES_BLOCK_SIZE;
+                } else {
+                    // Process data from in.
+                    in_buffer.context.clear.buffer = (void*) in;
+                    in_buffer.context.clear.length = inl;
+                    in_buffer.context.clear.offset = position;
+                    bytes_to_process = ((inl - position) / cipher_context->block_size) *
+                                       cipher_context->block_size;
+                    position += bytes_to_process;
                 }
 
-                // Store any leftover data in remaining_block for processing on the next call to update.
-                if (position < inl) {
-                    cipher_context->remaining_block_length = inl - position;
-                    memcpy(cipher_context->remaining_block, in + position,
-                            cipher_context->remaining_block_length);
-                }
-            } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
-                       cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-                // Process a final call.
-                sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
-                sa_buffer in_buffer = {SA_BUFFER_TYPE_CLEAR,
-                        {.clear = {cipher_context->remaining_block,
-                                 cipher_context->remaining_block_length, 0}}};
-                bytes_to_process = cipher_context->remaining_block_length;
-
-                void* parameters = NULL;
-                sa_cipher_end_parameters_aes_gcm end_parameters;
-                if (cipher_context->aead) {
-                    end_parameters.tag = cipher_context->tag;
-                    end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
-                    parameters = &end_parameters;
-                }
+                status = sa_crypto_cipher_process(&out_buffer, cipher_context->cipher_context, &in_buffer,
+                        &bytes_to_process);
+                if (status != SA_STATUS_OK)
+                    break;
 
-                status = sa_crypto_cipher_process_last(&out_buffer, cipher_context->cipher_context, &in_buffer,
-                        &bytes_to_process, parameters);
                 total_processed += bytes_to_process;
-            } else if (cipher_context->remaining_block_length > 0) {
-                // This is a SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB cipher, and it didn't end on a
-                // block_size boundary. This is an error.
-                ERROR("SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB didn't end on a block boundary");
-                *outl = 0;
-                break;
             }
 
-            if (status == SA_STATUS_OK) {
-                *outl = total_processed;
-            } else {
-                ERROR("cipher_do_cipher failed");
-                *outl = 0;
-                break;
+            // Store any leftover data in remaining_block for processing on the next call to update.
+            if (status == SA_STATUS_OK && position < inl) {
+                memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                        inl - position);
+                cipher_context->remaining_block_length += inl - position;
             }
+        } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
+                   cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
+            // Process a final call.
+            sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
+            sa_buffer in_buffer = {SA_BUFFER_TYPE_CLEAR,
+                    {.clear = {cipher_context->remaining_block,
+                             cipher_context->remaining_block_length, 0}}};
+            bytes_to_process = cipher_context->remaining_block_length;
+
+            void* parameters = NULL;
+            sa_cipher_end_parameters_aes_gcm end_parameters;
+            if (cipher_context->aead) {
+                end_parameters.tag = cipher_context->tag;
+                end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
+                parameters = &end_parameters;
+            }
+
+            status = sa_crypto_cipher_process_last(&out_buffer, cipher_context->cipher_context, &in_buffer,
+                    &bytes_to_process, parameters);
+            total_processed += bytes_to_process;
+        } else if (cipher_context->remaining_block_length > 0) {
+            // This is a SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB cipher, and it didn't end on a
+            // block_size boundary. This is an error.
+            ERROR("SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB didn't end on a block boundary");
+            *outl = 0;
+            break;
+        }
+
+        if (status == SA_STATUS_OK) {
+            *outl = total_processed;
         } else {
+            ERROR("cipher_do_cipher failed");
             *outl = 0;
+            break;
         }
 
         result = 1;
@@ -649,10 +683,13 @@ static int cipher_set_ctx_params(void* cctx,
             return 0;
         }
 
-        if (cipher_context->key != INVALID_HANDLE)
-            sa_key_release(cipher_context->key);
+        if (cipher_context->key != key) {
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+                sa_key_release(cipher_context->key);
 
-        cipher_context->key = key;
+            cipher_context->key = key;
+            cipher_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 2d7ef2f3fe2e3b53954a2e0622417d93038b69aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 49/54] fix: provider RSA contexts use the chosen MGF1 digest
 and can be copied

The MGF1 digest was replaced by the OAEP digest, fetched digests were leaked,
copying a context without digest or label failed or dereferenced NULL, and
reading back the padding mode failed.
---
 .../src/client/src/sa_provider_asym_cipher.c  | 85 +++++++++++++------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index f7af18d..1390143 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -120,25 +120,54 @@ static void* asym_cipher_dupctx(void* ctx) {
 
     new_asym_cipher_context->provider_context = asym_cipher_context->provider_context;
     new_asym_cipher_context->cipher_algorithm = asym_cipher_context->cipher_algorithm;
-    new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
     new_asym_cipher_context->padding_mode = asym_cipher_context->padding_mode;
-    new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
-    new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
-    new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
-    new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
-    if (new_asym_cipher_context->oaep_label == NULL) {
-        ERROR("OPENSSL_malloc failed");
-        EVP_MD_free(new_asym_cipher_context->oaep_md);
-        EVP_MD_free(new_asym_cipher_context->oaep_mgf1_md);
-        OPENSSL_free(new_asym_cipher_context);
-        return NULL;
+    if (asym_cipher_context->oaep_label != NULL && asym_cipher_context->oaep_label_length > 0) {
+        new_asym_cipher_context->oaep_label = OPENSSL_memdup(asym_cipher_context->oaep_label,
+                asym_cipher_context->oaep_label_length);
+        if (new_asym_cipher_context->oaep_label == NULL) {
+            ERROR("OPENSSL_memdup failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
+    }
+
+    if (asym_cipher_context->oaep_md != NULL) {
+        if (EVP_MD_up_ref(asym_cipher_context->oaep_md) != 1) {
+            ERROR("EVP_MD_up_ref failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
+    }
+
+    if (asym_cipher_context->oaep_mgf1_md != NULL) {
+        if (EVP_MD_up_ref(asym_cipher_context->oaep_mgf1_md) != 1) {
+            ERROR("EVP_MD_up_ref failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
     }
 
+    if (asym_cipher_context->key_data != NULL)
+        new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+
     return new_asym_cipher_context;
 }
 
+// Makes the default OAEP digest the digest of the context if none was chosen.
+static bool set_default_oaep_md(sa_provider_asym_cipher_context* asym_cipher_context) {
+    if (asym_cipher_context->oaep_md == NULL)
+        asym_cipher_context->oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx,
+                DEFAULT_OAEP_DIGEST, NULL);
+
+    return asym_cipher_context->oaep_md != NULL;
+}
+
 static int asym_cipher_encrypt_init(
         void* ctx,
         void* provkey,
@@ -155,7 +184,9 @@ static int asym_cipher_encrypt_init(
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
-    asym_cipher_context->key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(asym_cipher_context->key_data);
+    asym_cipher_context->key_data = key_data;
     return asym_cipher_set_ctx_params(ctx, params);
 }
 
@@ -208,13 +239,13 @@ static int asym_cipher_encrypt(
         }
 
         if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
-            EVP_MD* oaep_md;
-            if (asym_cipher_context->oaep_md != NULL)
-                oaep_md = asym_cipher_context->oaep_md;
-            else
-                oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
+            if (!set_default_oaep_md(asym_cipher_context)) {
+                ERROR("set_default_oaep_md failed");
+                break;
+            }
 
-            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+            EVP_MD* oaep_md = asym_cipher_context->oaep_md;
+            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md : oaep_md;
             if (EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, oaep_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_oaep_md failed");
                 break;
@@ -294,13 +325,13 @@ static int asym_cipher_decrypt(void* ctx,
     void* parameters = NULL;
     if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_OAEP;
-        EVP_MD* oaep_md;
-        if (asym_cipher_context->oaep_md != NULL)
-            oaep_md = asym_cipher_context->oaep_md;
-        else
-            oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
+        if (!set_default_oaep_md(asym_cipher_context)) {
+            ERROR("set_default_oaep_md failed");
+            return 0;
+        }
 
-        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+        EVP_MD* oaep_md = asym_cipher_context->oaep_md;
+        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md : oaep_md;
         parameters_rsa_oaep.digest_algorithm = digest_algorithm_from_md(oaep_md);
         parameters_rsa_oaep.mgf1_digest_algorithm = digest_algorithm_from_md(oaep_mgf1_md);
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
@@ -361,7 +392,7 @@ static int asym_cipher_get_ctx_params(
     if (param != NULL) {
         switch (param->data_type) {
             case OSSL_PARAM_INTEGER:
-                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
+                if (!OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
                     ERROR("OSSL_PARAM_set_int failed");
                     return 0;
                 }
-- 
2.43.0


From 34fbf953743e2eb462ea1998a5ae597429f6b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 50/54] fix: provider signature contexts respect sizes, digests
 and copies

The SHA1 algorithm identifier was the one of SHA256, an encoded signature was
written without regard to the buffer's size, digest_sign_init reported success
after failures and leaked its key, the MGF1 default was not the digest, copying
a context without digest or key failed, and calls on a context that was not
initialised dereferenced NULL.
---
 .../src/client/src/sa_provider_signature.c    | 149 ++++++++++++------
 1 file changed, 105 insertions(+), 44 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 9ee41b6..8c3ce16 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -72,7 +72,7 @@ ossl_unused static OSSL_FUNC_signature_gettable_ctx_md_params_fn signature_getta
 ossl_unused static OSSL_FUNC_signature_set_ctx_md_params_fn signature_set_ctx_md_params;
 ossl_unused static OSSL_FUNC_signature_settable_ctx_md_params_fn signature_settable_ctx_md_params;
 
-static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
+static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x05, 0x05,
         0x00};
 static uint8_t rsa_sha256_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
         0x00};
@@ -146,30 +146,38 @@ static void* signature_dupctx(void* ctx) {
         }
 
         new_signature_context->provider_context = signature_context->provider_context;
-        new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
-        new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
-        if (new_signature_context->evp_md_ctx == NULL) {
-            ERROR("EVP_MD_CTX_new failed");
-            break;
-        }
+        if (signature_context->key_data != NULL)
+            new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
 
-        if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
-            ERROR("EVP_MD_CTX_copy failed");
-            break;
+        if (signature_context->evp_md_ctx != NULL) {
+            new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
+            if (new_signature_context->evp_md_ctx == NULL) {
+                ERROR("EVP_MD_CTX_new failed");
+                break;
+            }
+
+            if (EVP_MD_CTX_copy_ex(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
+                ERROR("EVP_MD_CTX_copy_ex failed");
+                break;
+            }
         }
 
-        new_signature_context->evp_md = signature_context->evp_md;
-        if (new_signature_context->evp_md != NULL &&
-                EVP_MD_up_ref(new_signature_context->evp_md) != 1) {
-            ERROR("EVP_MD_up_ref failed");
-            break;
+        if (signature_context->evp_md != NULL) {
+            if (EVP_MD_up_ref(signature_context->evp_md) != 1) {
+                ERROR("EVP_MD_up_ref failed");
+                break;
+            }
+
+            new_signature_context->evp_md = signature_context->evp_md;
         }
 
-        new_signature_context->mgf1_md = signature_context->mgf1_md;
-        if (new_signature_context->mgf1_md != NULL &&
-                EVP_MD_up_ref(new_signature_context->mgf1_md) != 1) {
-            ERROR("EVP_MD_up_ref failed");
-            break;
+        if (signature_context->mgf1_md != NULL) {
+            if (EVP_MD_up_ref(signature_context->mgf1_md) != 1) {
+                ERROR("EVP_MD_up_ref failed");
+                break;
+            }
+
+            new_signature_context->mgf1_md = signature_context->mgf1_md;
         }
 
         new_signature_context->padding_mode = signature_context->padding_mode;
@@ -177,11 +185,9 @@ static void* signature_dupctx(void* ctx) {
         result = 1;
     } while (false);
 
-    if (result == 0 && new_signature_context != NULL) {
-        EVP_MD_CTX_free(new_signature_context->evp_md_ctx);
-        EVP_MD_free(new_signature_context->evp_md);
-        EVP_MD_free(new_signature_context->mgf1_md);
-        OPENSSL_free(new_signature_context);
+    if (result == 0) {
+        signature_freectx(new_signature_context);
+        return NULL;
     }
 
     return new_signature_context;
@@ -203,7 +209,9 @@ static int signature_sign_init(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    sa_provider_key_data* previous_key_data = signature_context->key_data;
     signature_context->key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(previous_key_data);
     return signature_set_ctx_params(ctx, params);
 }
 
@@ -211,7 +219,7 @@ static int signature_sign(
         void* ctx,
         unsigned char* sig,
         size_t* siglen,
-        ossl_unused size_t sigsize,
+        size_t sigsize,
         const unsigned char* tbs,
         size_t tbslen) {
 
@@ -257,7 +265,7 @@ static int signature_sign(
                     parameters_rsa_pss.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
 
                 if (parameters_rsa_pss.mgf1_digest_algorithm == UINT32_MAX)
-                    parameters_rsa_pss.mgf1_digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
+                    parameters_rsa_pss.mgf1_digest_algorithm = parameters_rsa_pss.digest_algorithm;
 
                 parameters_rsa_pss.precomputed_digest = true;
                 int salt_length;
@@ -324,17 +332,34 @@ static int signature_sign(
         // Take the SecApi 3 signature and encode it like OpenSSL would so that it looks like it came from
         // OpenSSL
         if (sig != NULL) {
-            if (!ec_encode_signature(sig, siglen, local_signature, local_signature_length)) {
+            uint8_t encoded_signature[MAX_SIGNATURE_LENGTH + 9];
+            size_t encoded_signature_length = sizeof(encoded_signature);
+            if (!ec_encode_signature(encoded_signature, &encoded_signature_length, local_signature,
+                        local_signature_length)) {
                 ERROR("ec_encode_signature failed");
                 return 0;
             }
+
+            if (encoded_signature_length > sigsize) {
+                ERROR("Invalid sigsize");
+                return 0;
+            }
+
+            memcpy(sig, encoded_signature, encoded_signature_length);
+            *siglen = encoded_signature_length;
         } else {
             // Add the most number of bytes that can be added by ASN.1 encoding (9). It could be as few as 6.
             *siglen = local_signature_length + 9;
         }
     } else {
-        if (sig != NULL)
+        if (sig != NULL) {
+            if (local_signature_length > sigsize) {
+                ERROR("Invalid sigsize");
+                return 0;
+            }
+
             memcpy(sig, local_signature, local_signature_length);
+        }
 
         *siglen = local_signature_length;
     }
@@ -416,7 +441,8 @@ static int signature_verify(
             }
         }
 
-        if (EVP_PKEY_CTX_set_signature_md(verify_pkey_ctx, signature_context->evp_md) != 1) {
+        const EVP_MD* verify_md = signature_context->evp_md != NULL ? signature_context->evp_md : EVP_sha256();
+        if (EVP_PKEY_CTX_set_signature_md(verify_pkey_ctx, verify_md) != 1) {
             ERROR("EVP_PKEY_CTX_set_signature_md failed");
             break;
         }
@@ -470,12 +496,15 @@ static int signature_digest_sign_init(
             EVP_MD_CTX_free(signature_context->evp_md_ctx);
             signature_context->evp_md_ctx = NULL;
         } else {
-            EVP_MD_free(signature_context->evp_md);
-            signature_context->evp_md = EVP_MD_fetch(signature_context->provider_context->lib_ctx,
-                    mdname, NULL);
-            if (signature_context->evp_md == NULL) {
-                ERROR("NULL evp_md");
-                break;
+            // Without a digest name, the digest set by the parameters is used.
+            if ((mdname != NULL && mdname[0] != '\0') || signature_context->evp_md == NULL) {
+                EVP_MD_free(signature_context->evp_md);
+                signature_context->evp_md = EVP_MD_fetch(signature_context->provider_context->lib_ctx,
+                        mdname != NULL && mdname[0] != '\0' ? mdname : "SHA256", NULL);
+                if (signature_context->evp_md == NULL) {
+                    ERROR("NULL evp_md");
+                    break;
+                }
             }
 
             EVP_MD_CTX_free(signature_context->evp_md_ctx);
@@ -500,10 +529,11 @@ static int signature_digest_sign_init(
         EVP_MD_CTX_free(signature_context->evp_md_ctx);
         signature_context->evp_md = NULL;
         signature_context->evp_md_ctx = NULL;
+        sa_provider_key_data_free(signature_context->key_data);
         signature_context->key_data = NULL;
     }
 
-    return 1;
+    return result;
 }
 
 static int signature_digest_sign_update(
@@ -516,12 +546,17 @@ static int signature_digest_sign_update(
         return 0;
     }
 
-    if (data == NULL) {
+    if (data == NULL && datalen > 0) {
         ERROR("NULL data");
         return 0;
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    if (signature_context->evp_md_ctx == NULL) {
+        ERROR("NULL evp_md_ctx");
+        return 0;
+    }
+
     if (EVP_DigestUpdate(signature_context->evp_md_ctx, data, datalen) != 1) {
         ERROR("EVP_DigestUpdate failed");
         return 0;
@@ -547,6 +582,11 @@ static int signature_digest_sign_final(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    if (signature_context->evp_md_ctx == NULL) {
+        ERROR("NULL evp_md_ctx");
+        return 0;
+    }
+
     uint8_t md[EVP_MAX_MD_SIZE];
     unsigned int md_size;
     if (sig != NULL) {
@@ -594,7 +634,7 @@ static int signature_digest_sign(
     }
 
     sa_header* header = &signature_context->key_data->private_key_header;
-    if (header->type != SA_KEY_TYPE_EC &&
+    if (header->type != SA_KEY_TYPE_EC ||
             !(header->type_parameters.curve == SA_ELLIPTIC_CURVE_ED25519 ||
                     header->type_parameters.curve == SA_ELLIPTIC_CURVE_ED448)) {
         ERROR("Invalid key type");
@@ -651,6 +691,11 @@ static int signature_digest_verify_final(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    if (signature_context->evp_md_ctx == NULL) {
+        ERROR("NULL evp_md_ctx");
+        return 0;
+    }
+
     uint8_t md[EVP_MAX_MD_SIZE];
     unsigned int md_size;
     if (EVP_DigestFinal_ex(signature_context->evp_md_ctx, md, &md_size) != 1) {
@@ -693,7 +738,7 @@ static int signature_digest_verify(
     }
 
     sa_header* header = &signature_context->key_data->private_key_header;
-    if (header->type != SA_KEY_TYPE_EC &&
+    if (header->type != SA_KEY_TYPE_EC ||
             !(header->type_parameters.curve == SA_ELLIPTIC_CURVE_ED25519 ||
                     header->type_parameters.curve == SA_ELLIPTIC_CURVE_ED448)) {
         ERROR("Invalid key type");
@@ -746,8 +791,14 @@ static int signature_get_ctx_params(
     if (param != NULL) {
         uint8_t* algorithm_id = NULL;
         size_t algorithm_id_length = 0;
+        if (signature_context->key_data == NULL) {
+            ERROR("NULL key_data");
+            return 0;
+        }
+
+        int md_type = signature_context->evp_md != NULL ? EVP_MD_get_type(signature_context->evp_md) : NID_undef;
         if (signature_context->key_data->type == EVP_PKEY_RSA) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = rsa_sha1_oid;
                     algorithm_id_length = sizeof(rsa_sha1_oid);
@@ -772,7 +823,7 @@ static int signature_get_ctx_params(
                     break;
             }
         } else if (signature_context->key_data->type == EVP_PKEY_EC) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (md_type) {
                 case NID_sha1:
                     algorithm_id = ecdsa_sha1_oid;
                     algorithm_id_length = sizeof(ecdsa_sha1_oid);
@@ -804,6 +855,11 @@ static int signature_get_ctx_params(
             algorithm_id_length = sizeof(eddsa_ed448_oid);
         }
 
+        if (algorithm_id == NULL) {
+            ERROR("Unknown algorithm_id");
+            return 0;
+        }
+
         if (!OSSL_PARAM_set_octet_string(param, algorithm_id, algorithm_id_length)) {
             ERROR("OSSL_PARAM_set_octet_string failed");
             return 0;
@@ -840,7 +896,7 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_DIGEST);
     if (param != NULL) {
-        const char* md_name = EVP_MD_get0_name(signature_context->evp_md);
+        const char* md_name = signature_context->evp_md != NULL ? EVP_MD_get0_name(signature_context->evp_md) : NULL;
         if (md_name == NULL) {
             ERROR("NULL md_name");
             return 0;
@@ -854,6 +910,11 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_DIGEST_SIZE);
     if (param != NULL) {
+        if (signature_context->evp_md == NULL) {
+            ERROR("NULL evp_md");
+            return 0;
+        }
+
         size_t digest_size = EVP_MD_get_size(signature_context->evp_md);
         if (OSSL_PARAM_set_size_t(param, digest_size) != 1) {
             ERROR("OSSL_PARAM_set_size_t failed");
@@ -863,7 +924,7 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_MGF1_DIGEST);
     if (param != NULL) {
-        const char* md_name = EVP_MD_get0_name(signature_context->mgf1_md);
+        const char* md_name = signature_context->mgf1_md != NULL ? EVP_MD_get0_name(signature_context->mgf1_md) : NULL;
         if (md_name == NULL) {
             ERROR("NULL md_name");
             return 0;
-- 
2.43.0


From 8f0983104beb2fecd41f803629e02115bb84098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 51/54] fix: a random source that returns -1 has failed too

---
 reference/src/taimpl/src/porting/rand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..3afb75d 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -26,7 +26,7 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
+    if (RAND_bytes(out, (int) out_length) != 1) {
         ERROR("RAND_bytes failed");
         return false;
     }
-- 
2.43.0


From 7678213580e2878a37760ca08cc73e8b000c21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 52/54] fix: do not report random bytes that were never
 obtained when more are asked for than an int can count

---
 reference/src/taimpl/src/porting/rand.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 3afb75d..45f1a7f 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -18,6 +18,7 @@
 
 #include "porting/rand.h" // NOLINT
 #include "log.h"
+#include <limits.h>
 #include <openssl/rand.h>
 
 bool rand_bytes(void* out, size_t out_length) {
@@ -26,6 +27,11 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
+    if (out_length > INT_MAX) {
+        ERROR("Invalid out_length");
+        return false;
+    }
+
     if (RAND_bytes(out, (int) out_length) != 1) {
         ERROR("RAND_bytes failed");
         return false;
-- 
2.43.0


From 1eb988d3beb89e0ffba6d557b57045514d282888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 53/54] fix: an SVP key check with an unknown buffer type took
 the buffer handle for an address

---
 reference/src/taimpl/src/ta_sa_svp_key_check.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_svp_key_check.c b/reference/src/taimpl/src/ta_sa_svp_key_check.c
index 0e8d181..4f1e98e 100644
--- a/reference/src/taimpl/src/ta_sa_svp_key_check.c
+++ b/reference/src/taimpl/src/ta_sa_svp_key_check.c
@@ -40,6 +40,11 @@ sa_status ta_sa_svp_key_check(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
+        ERROR("Invalid in buffer type");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (bytes_to_process % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From 83837966eb5bb977364fce1f48643cc86051f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 54/54] fix: set the OpenSSL allocator once when sessions are
 opened at the same time

---
 reference/src/taimpl/src/ta_sa_init.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_init.c b/reference/src/taimpl/src/ta_sa_init.c
index 1897023..3bb079d 100644
--- a/reference/src/taimpl/src/ta_sa_init.c
+++ b/reference/src/taimpl/src/ta_sa_init.c
@@ -20,16 +20,15 @@
 #include "log.h"
 #include "porting/init.h"
 #include "ta_sa.h"
+#include <threads.h>
+
+static once_flag openssl_allocator_flag = ONCE_FLAG_INIT;
 
 sa_status ta_sa_init(
         ta_client* client_slot,
         const sa_uuid* caller_uuid) {
 
-    static bool openssl_allocator_inited = false;
-    if (!openssl_allocator_inited) {
-        openssl_allocator_inited = true;
-        init_openssl_allocator();
-    }
+    call_once(&openssl_allocator_flag, init_openssl_allocator);
 
     if (client_slot == NULL) {
         ERROR("NULL client_slot");
-- 
2.43.0

