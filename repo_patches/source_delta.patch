From 7dc1b465e7392afb3acea7ba00fbcc4e6667caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/14] fix: BitManipulation_rotl32 shifted by 32 bits when
 rotating by 0

Rotation by 0 evaluated data >> 32 (undefined; 0 on x86, where data is lost)
and rotation by more than 32 used out-of-range shift counts.
---
 Src/bit_manipulation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..a41ae1a 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -106,7 +106,8 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
+    const uint32_t shift = n_bits & MAX_BIT_SHIFT;
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> compliant MC3R1.R12.2 1 Right hand operands of shift expressions are between 0 and 31 due to bit masking. */
+    return ((data << shift) | (data >> ((32U - shift) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From a92c6dd429bf32594a9aa9863b813a08c3083456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/14] fix: Base64_encode wrote its terminator one past the
 end of the result

The terminating null character was not accounted for in max_result_length.
---
 Src/base64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..741c3cc 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -45,7 +45,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
     size_t len = 4U * ((data_length + 2U) / 3U);
 
-    if (len < data_length) {
+    if ((len < data_length) || (max_result_length == 0U)) {
         success = 1;
     }
 
@@ -56,7 +56,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         uint8_t* pos = out;
         while ((data_length - in_position) >= 3U) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
                 break;
             }
@@ -76,7 +76,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
         if ((success == 0) && ((data_length - in_position) != 0U)) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
             }
 
-- 
2.43.0


From 6b904f12f3fc7d377f1df7052807517a7eac295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 03/14] fix: Base64_decode rejected texts of one or two data
 bytes and read past its input

Texts such as "QQ==" and "amM=" (no full quantum before the last one) were
rejected, and an input length of 4 * n + 1 read one byte past the input.
---
 Src/base64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 741c3cc..592badb 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -137,7 +137,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
@@ -154,7 +154,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 0d583a9ce6701d46b2c1ca59b236a96a18aa7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 04/14] fix: CaesarCipher_decrypt returned wrong letters when
 the shift wraps around 'a'

The unsigned difference wrapped modulo 2^32, which is not a multiple of 26.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 429e927ce4c88e5595778647ea29bb1a1dc7321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 05/14] fix: VernamCipher turned letters into other characters
 for some key characters

Key characters outside of the alphabet gave negative remainders (encrypt) or
unreduced differences (decrypt), so the message could not be decrypted.
---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..d36fc18 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -60,7 +60,7 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
                 }
 
                 int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
-                int32_t cipher = temp + ascii_val;
+                int32_t cipher = (temp < 0) ? (temp + NUM_OF_ALPHA + ascii_val) : (temp + ascii_val);
                 msg[i] = (char)cipher;
             }
         }
@@ -86,7 +86,7 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = (((msg[i] - ascii_val) - (key[i] - c)) % NUM_OF_ALPHA);
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From f28d84da8d8bc626cc8d510d64fb35794e4410d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 06/14] fix: Json_addData read before an empty buffer and wrote
 the separator unchecked

The comma was appended before the capacity check: one byte past a full buffer,
and left behind when the pair itself did not fit.
---
 Src/json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..2c21f21 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -57,14 +57,19 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
 
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
+    const bool separator_needed = (index > 0U) && (buffer[index - 1U] == '"');
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    if (separator_needed) {
+        total_size += strlen(",");
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator_needed) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            index += strlen(",");
+        }
+
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From efe82480140763e052d6b8c9f5bf46b428be3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 07/14] fix: Json_findByKey missed keys whose text occurs
 earlier in the buffer

Only the first occurrence of the key text was considered, so a key that is a
prefix of an earlier key or part of an earlier value was not found, and a
value or the tail of another key could be taken for the key.
---
 Src/json.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 2c21f21..1e467a3 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,11 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+static bool
+IsWhitespace(char c) {
+    return (c == ' ') || (c == '\t') || (c == '\n') || (c == '\r');
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -112,31 +117,38 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t max_search_size = 0U;
+    size_t index;
+    bool in_string = false;
 
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+    if (buffer_size > (key_size + 1U)) {
+        max_search_size = buffer_size - key_size - 1U;
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
+    for (index = 0U; (index < max_search_size) && (!success); ++index) {
 
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+        if (buffer[index] == '"') {
+            in_string = !in_string;
 
-            if (buffer[index + key_size] == '"') {
-                success = true;
-            }
+            /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
+            by calculating max_search_size from buffer size and key size */
+            if (in_string && (0 == strncmp(&buffer[index + 1U], key, key_size)) && (buffer[index + key_size + 1U] == '"')) {
+                size_t next = index + key_size + 2U;
+
+                while ((next < buffer_size) && IsWhitespace(buffer[next])) {
+                    ++next;
+                }
 
-            break;
+                /* A string that is not followed by ':' is a value. */
+                success = (next < buffer_size) && (buffer[next] == ':');
+            }
         }
     }
 
     if (success) {
 
         success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
+        for (index += key_size + 1U; index < buffer_size; ++index) {
 
             if (buffer[index] == '"') {
                 break;
-- 
2.43.0


From 9549b16bdcbef4726b0756d35cae3913789c4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 08/14] fix: HeapSort_sort compared elements past the end of
 the buffer

Children were handed to the compare function before checking that they exist.
---
 Src/sort/heap_sort.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..12f8bf3 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,16 +48,11 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
+        if ((left < n) && compareFun(&elements[left * element_size], &elements[largest * element_size])) {
             largest = left;
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
+        if ((right < n) && compareFun(&elements[right * element_size], &elements[largest * element_size])) {
             largest = right;
         }
 
-- 
2.43.0


From 3c132b5eba7759b91aa6f764639662ec641aa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 09/14] fix: InsertionSort_sort compared an element before the
 start of the buffer

---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..30eab2f 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,7 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            compare = (j >= 0) && compareFun(&elements[j * element_size], element);
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From a4db6cdd9e0049dc15701fe7d6b9c72fc4c0f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 10/14] fix: Map_init accepted negative sizes

A map with negative sizes passes them on to memcmp and memcpy as huge lengths.
---
 Src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..5f153e9 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -55,7 +55,7 @@ bool
 Map_init(Map_t* map, byte_t* keys, byte_t* values, int32_t key_size, int32_t value_size,
          int32_t max_map_size) {
     bool status = false;
-    if ((key_size != 0) && (value_size != 0) && (max_map_size != 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
+    if ((key_size > 0) && (value_size > 0) && (max_map_size > 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
         map->keys = keys;
         map->values = values;
         map->key_size = key_size;
-- 
2.43.0


From 546eac7cf51faa6b3e8cc809b9830409deade6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 11/14] fix: Utils_(de)serializeBlobLE copied nothing for 2 GiB
 and more

The size was converted to a signed 32-bit value.
---
 Src/utils.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..6a4c8d4 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,10 +217,8 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        buf[i] = src[size - 1U - i];
     }
 }
 
@@ -253,10 +251,8 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        dst[i] = buf[size - 1U - i];
     }
 }
 
-- 
2.43.0


From 7225d825220fca81af480265273cf1b778a5a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 12/14] fix: Vernam cipher accepted messages of 4 GiB more than
 the key length (length truncated to 32 bits)

---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index d36fc18..ac35fae 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -46,7 +46,7 @@ bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
@@ -73,7 +73,7 @@ bool
 VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
-- 
2.43.0


From c32d22ba95029290ac28cb39adbf5fd1ed68d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 13/14] fix: Json_findByKey searched stale bytes behind the end
 of the text in the buffer

---
 Src/json.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 1e467a3..e0a5e63 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -117,12 +117,18 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
+    size_t text_size = 0U;
     size_t max_search_size = 0U;
     size_t index;
     bool in_string = false;
 
-    if (buffer_size > (key_size + 1U)) {
-        max_search_size = buffer_size - key_size - 1U;
+    /* What follows the end of the text in the buffer is not searched. */
+    while ((text_size < buffer_size) && (buffer[text_size] != '\0')) {
+        ++text_size;
+    }
+
+    if (text_size > (key_size + 1U)) {
+        max_search_size = text_size - key_size - 1U;
     }
 
     for (index = 0U; (index < max_search_size) && (!success); ++index) {
@@ -131,16 +137,16 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
             in_string = !in_string;
 
             /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-            by calculating max_search_size from buffer size and key size */
+            by calculating max_search_size from text size and key size */
             if (in_string && (0 == strncmp(&buffer[index + 1U], key, key_size)) && (buffer[index + key_size + 1U] == '"')) {
                 size_t next = index + key_size + 2U;
 
-                while ((next < buffer_size) && IsWhitespace(buffer[next])) {
+                while ((next < text_size) && IsWhitespace(buffer[next])) {
                     ++next;
                 }
 
                 /* A string that is not followed by ':' is a value. */
-                success = (next < buffer_size) && (buffer[next] == ':');
+                success = (next < text_size) && (buffer[next] == ':');
             }
         }
     }
@@ -148,7 +154,7 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     if (success) {
 
         success = false;
-        for (index += key_size + 1U; index < buffer_size; ++index) {
+        for (index += key_size + 1U; index < text_size; ++index) {
 
             if (buffer[index] == '"') {
                 break;
@@ -158,7 +164,7 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
         size_t value_size = 0;
         ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
+        while ((index < text_size) && (value_size < max_value_size)) {
             value[value_size] = buffer[index];
 
             if (buffer[index] == '"') {
-- 
2.43.0


From f19f5e7c2871ae29b08cc7f09da05f66b33bd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:46 +0000
Subject: [PATCH 14/14] fix: HeapSort_sort overflowed the child position of a
 leaf in arrays of more than 2^30 elements

---
 Src/sort/heap_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index 12f8bf3..0c5c88b 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -43,7 +43,7 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
     int32_t index = i;
     byte_t* elements = buffer;
 
-    while (continue_iterating) {
+    while (continue_iterating && (index < (n / 2))) {
         int32_t largest = index;
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
-- 
2.43.0

