From 7512627a5b1cc0f1cc954e69d38144e184b0a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 01/27] fix: buffer: inserting zero bytes into an empty buffer
 must not fail

---
 data/buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..c5bf275 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -108,7 +108,9 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    /* (Even if there is nothing to insert, we need a non-NULL pointer to return
+     * because NULL means an error.) */
+    if(buf->size + n > buf->alloc  ||  buf->data == NULL) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 9126f29b93023694b6f70bcb05105459f2ec24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 02/27] fix: buffer: refuse requests whose total size overflows
 size_t

---
 data/buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index c5bf275..4f668c2 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -47,8 +47,11 @@ buffer_good_alloc_size(size_t requested_alloc)
          * be little bit more conservative.)
          */
         good_alloc = 512;
-        while(good_alloc-32 < requested_alloc)
+        while(good_alloc-32 < requested_alloc) {
+            if(good_alloc > SIZE_MAX / 2)
+                return requested_alloc;
             good_alloc *= 2;
+        }
         good_alloc -= 32;
     }
 
@@ -86,6 +89,9 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    if(n > SIZE_MAX - buf->size)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -110,7 +116,7 @@ buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
     /* (Even if there is nothing to insert, we need a non-NULL pointer to return
      * because NULL means an error.) */
-    if(buf->size + n > buf->alloc  ||  buf->data == NULL) {
+    if(n > buf->alloc - buf->size  ||  buf->data == NULL) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 2316fceee05b79699d5ede6a5aef9c5e19af4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 03/27] fix: buffer: avoid overflow when removing a huge count
 of bytes

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 4f668c2..01ca821 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -144,7 +144,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From a274bb86462055eea57f45f1a8eb78e3eb555c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 04/27] fix: buffer: array_ptr_insert() should take ARRAY_ptr*

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..43d942d 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -502,7 +502,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From 07b5ec078825223dbc1d5e26530cd593090a0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 05/27] fix: value: value_dict_add() must refuse a used key
 even if its value is new

---
 data/value.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..675ba18 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1143,10 +1143,12 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
-    VALUE* res;
+    /* Note we cannot rely on value_is_new() of what value_dict_get_or_add_()
+     * returns: The already existing value may be still marked as new. */
+    if(value_dict_get_(v, key, key_len) != NULL)
+        return NULL;
 
-    res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return value_dict_get_or_add_(v, key, key_len);
 }
 
 VALUE*
-- 
2.43.0


From ab546474fc9eb761a65d22ddba37a886d6d56173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 06/27] fix: value: value_dict_add() should treat NULL key as
 an empty one

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 675ba18..4b6cfaf 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1154,7 +1154,7 @@ value_dict_add_(VALUE* v, const char* key, size_t key_len)
 VALUE*
 value_dict_add(VALUE* v, const char* key)
 {
-    return value_dict_add_(v, key, strlen(key));
+    return value_dict_add_(v, key, (key != NULL) ? strlen(key) : 0);
 }
 
 VALUE*
-- 
2.43.0


From c1be11d1e412d6f6c94cc56d92a3cbd238939c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 07/27] fix: value: avoid overflow in
 value_array_remove_range()

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 4b6cfaf..9a53e3b 100644
--- a/data/value.c
+++ b/data/value.c
@@ -846,7 +846,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From f2598fcea14f89dc7fcca3a1158dcfb231c526f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/27] fix: value: value_path() must not accept an overflowing
 or malformed array index

---
 data/value.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 9a53e3b..dc21640 100644
--- a/data/value.c
+++ b/data/value.c
@@ -265,10 +265,14 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
-                index = index * 10 + (*token_beg - '0');
+                size_t digit = *token_beg - '0';
+
+                if(index > (SIZE_MAX - digit) / 10)
+                    return NULL;    /* Out of range of any array. */
+                index = index * 10 + digit;
                 token_beg++;
             }
-            if(*token_beg != ']')
+            if(token_beg != token_end-1)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-- 
2.43.0


From 32c83496ba777ab625781e0b3615c3e878334c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 09/27] fix: value: value_string_length() for strings of 2 GB
 and more

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index dc21640..27dca35 100644
--- a/data/value.c
+++ b/data/value.c
@@ -711,11 +711,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t) payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From 91d7775475e0b7adfeacc9e5f5f7783490454b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 10/27] fix: value: correct rounding of float and double to
 integer types

---
 data/value.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/data/value.c b/data/value.c
index 27dca35..5384bc8 100644
--- a/data/value.c
+++ b/data/value.c
@@ -91,9 +91,29 @@ struct DICT_tag {
 
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
- * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+ * library (-lm).
+ *
+ * (Note just adding 0.5 and truncating is not enough. The addition itself is
+ * not exact, e.g. for numbers so big they cannot have any fraction.) */
+static double
+value_round(double x)
+{
+    double trunc;
+
+    /* From 2^52 up, the number cannot have any fraction. (Also covers NaN.) */
+    if(!(x > -4503599627370496.0  &&  x < 4503599627370496.0))
+        return x;
+
+    trunc = (double)(int64_t) x;
+    if(x - trunc >= 0.5)
+        return trunc + 1.0;
+    if(x - trunc <= -0.5)
+        return trunc - 1.0;
+    return trunc;
+}
+
+#define ROUNDF(inttype, x)   ((inttype) value_round((double)(x)))
+#define ROUNDD(inttype, x)   ((inttype) value_round(x))
 
 
 static void*
-- 
2.43.0


From fb3ce89a2149926a383cc7280e57b3fadeada83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 11/27] fix: base64: avoid negative table indexes for chars
 above 0x7f

---
 encode/base64.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..d237bfd 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -154,12 +154,12 @@ base64_decode(const char* in_buf, unsigned in_size,
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
         table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From 1fe0908210fb94fb2e77ebf6468f14d097ef15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 12/27] fix: base64: refuse inputs whose output size would
 overflow

---
 encode/base64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index d237bfd..ba0c10f 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The output size has to be representable as int. */
+    if(in_size > (INT_MAX - 1) / 4 * 3)
+        return -EINVAL;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
@@ -187,6 +192,10 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
     }
 
+    /* The output size has to be representable as int. */
+    if(out_size_needed > INT_MAX)
+        return -EINVAL;
+
     if(out_buf == NULL)
         return out_size_needed;
 
-- 
2.43.0


From 547606d8f464f03c8c90985c124b7a6d152470f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 13/27] fix: hex: hex_decode() must refuse letters which are
 not hexadecimal digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From 31f9441ff1c72caca1285e5a1ac12413a7218559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 14/27] fix: hex: hex_encode() must refuse inputs whose output
 size would overflow

---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..e788df2 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The output size has to be representable as int. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 74731fe70ea33bdda1bb2372cc801a9bb0b00d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 15/27] fix: crc32: support data of 2 GB and more

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 5adfeb74ef238c5c0d5429fc4b48e2a4d81bf8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 16/27] fix: malloca: compound size expressions, tiny
 thresholds and huge sizes

---
 mem/malloca.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..e9d8ad7 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -71,6 +71,24 @@ malloca_set_mark__(void* ptr, int mark)
 }
 
 
+/* Helper. Do not use directly. */
+static
+#if defined __STDC_VERSION__ && __STDC_VERSION__ >= 199901L
+    inline
+#elif defined __GNUC__
+    __inline__
+#elif defined _MSC_VER
+    __inline
+#endif
+void*
+malloca_heap_alloc__(size_t size)
+{
+    if(size > (size_t)-1 - sizeof(void*))
+        return NULL;
+    return malloc(size + sizeof(void*));
+}
+
+
 /* Allocate block of memory via malloc() or alloca(), depending on the
  * requested amount of memory.
  *
@@ -82,9 +100,9 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+    ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(malloca_heap_alloc__(size), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 9d87bbbd14f1518abd5523a878a581bc2620ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 17/27] fix: malloca: FREEA() must work for a variable named x

---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index e9d8ad7..98443e0 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -111,9 +111,9 @@ malloca_heap_alloc__(size_t size)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* malloca_mark__ = (int*)((char*)(ptr) - sizeof(void*));     \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From f49ba2fe3d944837fabf1000637ea1d7c553f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 18/27] fix: memchunk: avoid overflows for huge sizes

---
 mem/memchunk.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..91f2965 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -25,6 +25,8 @@
 
 #include "memchunk.h"
 
+#include <stdint.h>
+
 
 struct MEMCHUNK_BLOCK {
     struct MEMCHUNK_BLOCK* next;
@@ -48,8 +50,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +65,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +85,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 05fdfe56b66a6caf31dd47f2d848840a81ddddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 19/27] fix: cmdline: ignore shortname of compiler-like options
 also in option groups

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..7dd2c61 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)
                 break;
         }
 
-- 
2.43.0


From 051f34b95e14d703c2e3aed3f7c0d5d324886eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 20/27] fix: memstream: avoid overflow when asked to copy a
 huge count of bytes

---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..78ca42d 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -180,8 +180,10 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(s->pos >= s->size)
+        n.QuadPart = 0;
+    else if(n.QuadPart > s->size - s->pos)
+        n.QuadPart = s->size - s->pos;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From 76dc99f8315fa776ca1cc063f7277e3ebcc85fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 21/27] fix: memstream: report out-of-memory with a failing
 HRESULT

---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 78ca42d..92e4754 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -291,7 +291,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From 9ea99ca8f55966117bca535daa1634def76d9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 22/27] fix: memstream: do not claim to implement IDispatch

---
 win32/memstream.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 92e4754..f5dc5d0 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -52,7 +52,6 @@ static HRESULT STDMETHODCALLTYPE
 memstream_QueryInterface(IStream* self, REFIID riid, void** obj)
 {
     if(IsEqualGUID(riid, &IID_IUnknown)  ||
-       IsEqualGUID(riid, &IID_IDispatch)  ||
        IsEqualGUID(riid, &IID_ISequentialStream)  ||
        IsEqualGUID(riid, &IID_IStream))
     {
-- 
2.43.0


From 4d5176285b0a38fcecb683234a6b6dbef0e3244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 23/27] fix: value_build_path(): keep the new-flag if creation
 of a container fails

---
 data/value.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/data/value.c b/data/value.c
index 5384bc8..51523f5 100644
--- a/data/value.c
+++ b/data/value.c
@@ -252,6 +252,12 @@ value_is_new(const VALUE* v)
 }
 
 
+static void
+value_init_new(VALUE* v)
+{
+    v->data[0] = ((uint8_t) VALUE_NULL) | IS_NEW;
+}
+
 static VALUE*
 value_path_ex(VALUE* root, const char* path, int allow_build)
 {
@@ -296,8 +302,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-                if(value_init_array(v) != 0)
+                if(value_init_array(v) != 0) {
+                    value_init_new(v);
                     return NULL;
+                }
             }
 
             if(sign < 0) {
@@ -318,8 +326,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
         } else if(token_end - token_beg > 0) {
             if(allow_build) {
                 if(value_is_new(v)) {
-                    if(value_init_dict(v) != 0)
+                    if(value_init_dict(v) != 0) {
+                        value_init_new(v);
                         return NULL;
+                    }
                 }
                 v = value_dict_get_or_add_(v, token_beg, token_end - token_beg);
             } else {
@@ -358,12 +368,6 @@ value_init_null(VALUE* v)
         v->data[0] = (uint8_t) VALUE_NULL;
 }
 
-static void
-value_init_new(VALUE* v)
-{
-    v->data[0] = ((uint8_t) VALUE_NULL) | IS_NEW;
-}
-
 int
 value_init_bool(VALUE* v, int b)
 {
-- 
2.43.0


From 12b36d6d2050655b35ff983064e8a43acd6daf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 24/27] fix: memstream_create_from_resource() does not return
 S_OK without a stream

---
 win32/memstream.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index f5dc5d0..e8a576f 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -329,8 +329,14 @@ memstream_create_from_resource(HINSTANCE instance,
        (res_global = LoadResource(instance, res)) == NULL  ||
        (res_data = LockResource(res_global)) == NULL)
     {
+        HRESULT hr = HRESULT_FROM_WIN32(GetLastError());
+
+        /* An empty resource is not reported as an error by Windows. Do not
+         * claim a success when we do not provide any stream. */
+        if(SUCCEEDED(hr))
+            hr = E_FAIL;
         *p_stream = NULL;
-        return HRESULT_FROM_WIN32(GetLastError());
+        return hr;
     }
 
     return memstream_create(res_data, res_size, p_stream);
-- 
2.43.0


From b50bcd52e084bee9abe0f28dbaf080277bb9416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 25/27] fix: value_path() must not take "[+]" for an array
 index

A sign without any digit is not an integer; "[+]" resolved to the first item.
---
 data/value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/value.c b/data/value.c
index 51523f5..66c2ccc 100644
--- a/data/value.c
+++ b/data/value.c
@@ -286,6 +286,8 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             if(token_beg[0] == '-'  ||  token_beg[0] == '+') {
                 sign = (token_beg[0] == '+') ? +1 : -1;
                 token_beg++;
+                if(token_beg == token_end-1)
+                    return NULL;    /* No number after the sign. */
             } else {
                 sign = (token_end-1 - token_beg > 0) ? +1 : 0;
             }
-- 
2.43.0


From a984d2a703b7f0c03d082c832ea28b44156f2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 26/27] fix: sizes in bytes of array items must not wrap around

array_T_insert_n_raw() and array_T_append_n() with a count whose size in
bytes is not representable reported success with (nearly) nothing added,
and array_T_remove_n() with such a count removed (nearly) nothing.
---
 data/buffer.h | 58 +++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index 43d942d..bbdb15e 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -255,6 +255,10 @@ struct ARRAY_int64      { BUFFER buf; };
 struct ARRAY_uint64     { BUFFER buf; };
 struct ARRAY_ptr        { BUFFER buf; };
 
+/* Size of n items in bytes, limited so that it does not wrap around. (Nothing
+ * that large can be allocated.) */
+#define ARRAY_BYTES__(n, type)      ((n) <= ((size_t)-1) / sizeof(type) ? (n) * sizeof(type) : ((size_t)-1))
+
 
 #define ARRAY_int8_INITIALIZER      { BUFFER_INITIALIZER }
 #define ARRAY_uint8_INITIALIZER     { BUFFER_INITIALIZER }
@@ -512,23 +516,23 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), ARRAY_BYTES__(n, int8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), ARRAY_BYTES__(n, uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), ARRAY_BYTES__(n, int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), ARRAY_BYTES__(n, uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), ARRAY_BYTES__(n, int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), ARRAY_BYTES__(n, uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), ARRAY_BYTES__(n, int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), ARRAY_BYTES__(n, uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), ARRAY_BYTES__(n, void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,23 +627,23 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, int8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, ARRAY_BYTES__(n, void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
@@ -661,23 +665,23 @@ BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove_n(ARRAY_int8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int8_t), ARRAY_BYTES__(n, int8_t)); }
 BUFFER_INLINE__ void array_uint8_remove_n(ARRAY_uint8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint8_t), ARRAY_BYTES__(n, uint8_t)); }
 BUFFER_INLINE__ void array_int16_remove_n(ARRAY_int16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int16_t), ARRAY_BYTES__(n, int16_t)); }
 BUFFER_INLINE__ void array_uint16_remove_n(ARRAY_uint16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint16_t), ARRAY_BYTES__(n, uint16_t)); }
 BUFFER_INLINE__ void array_int32_remove_n(ARRAY_int32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int32_t), ARRAY_BYTES__(n, int32_t)); }
 BUFFER_INLINE__ void array_uint32_remove_n(ARRAY_uint32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint32_t), ARRAY_BYTES__(n, uint32_t)); }
 BUFFER_INLINE__ void array_int64_remove_n(ARRAY_int64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int64_t), ARRAY_BYTES__(n, int64_t)); }
 BUFFER_INLINE__ void array_uint64_remove_n(ARRAY_uint64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint64_t), ARRAY_BYTES__(n, uint64_t)); }
 BUFFER_INLINE__ void array_ptr_remove_n(ARRAY_ptr* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(void*), n * sizeof(void*)); }
+        { buffer_remove(&array->buf, index * sizeof(void*), ARRAY_BYTES__(n, void*)); }
 
 BUFFER_INLINE__ int8_t* array_int8_acquire(ARRAY_int8* array, size_t* p_size)
         { void* data; data = buffer_acquire(&array->buf, p_size);
-- 
2.43.0


From 60c78e8eb4049f4a953f826c0a3db99c7f2bf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 27/27] fix: index of a group of short options must not
 overflow

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index 7dd2c61..f6b6fb4 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -44,7 +44,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
         void* userdata)
 {
     const CMDLINE_OPTION* opt;
-    int i;
+    size_t i;
     int ret = 0;
 
     for(i = 0; arggroup[i] != '\0'; i++) {
-- 
2.43.0

