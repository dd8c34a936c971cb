From 9d82a39bf1da10da9eaae5491a6608cc754aff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 01/30] fix: refuse array_list capacities whose byte size
 overflows

---
 src/array_list.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..48c179f 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
@@ -66,6 +67,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
@@ -103,6 +107,9 @@ rcutils_array_list_fini(rcutils_array_list_t * array_list)
 
 static rcutils_ret_t rcutils_array_list_increase_capacity(rcutils_array_list_t * array_list)
 {
+  if (array_list->impl->capacity > SIZE_MAX / 2 / array_list->impl->data_size) {
+    return RCUTILS_RET_BAD_ALLOC;
+  }
   size_t new_capacity = 2 * array_list->impl->capacity;
   size_t new_size = array_list->impl->data_size * new_capacity;
   void * new_list = array_list->impl->allocator.reallocate(
-- 
2.43.0


From 2d4754a85fd713a069919e691116362bc259e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 02/30] fix: refuse string_array sizes whose byte size
 overflows in resize

---
 src/string_array.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..bbe43ea 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -154,6 +155,11 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("new size of string array is too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From 75082e752ac199a477c30b19c083198ae8ae12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 03/30] fix: do not keep a released buffer when resizing a
 char_array fails

---
 src/char_array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..89935ba 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -106,6 +106,9 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
+      char_array->buffer = NULL;  // rcutils_reallocf() released the old buffer
+      char_array->buffer_capacity = 0lu;
+      char_array->buffer_length = 0lu;
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-- 
2.43.0


From 83f222735de0fb2a1727a695897866e2e222d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 04/30] fix: resizing a char_array that wraps a user's buffer
 must not write before or into its contents

---
 src/char_array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index 89935ba..5c51a16 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -117,8 +117,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(char_array->buffer, old_buf, n);
+    }
+    char_array->buffer[n < new_size ? n : n - 1] = '\0';  // always have an ending
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From d725f7577695e0efe9ea8118b811c961824a48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 05/30] fix: rcutils_char_array_strncat must not read beyond
 the end of src

---
 src/char_array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/char_array.c b/src/char_array.c
index 5c51a16..5442305 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -225,6 +225,7 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  n = strnlen(src, n);  // at most n bytes are used
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 8d4cd24f6ddfed615f625c45dbbe68fa51176d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 06/30] fix: rcutils_cli_get_option must match the whole option
 and not read past the arguments

---
 src/cmdline_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..d1e497b 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,13 +32,13 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
-    return begin[idx];
+  if (idx + 1 < end_idx) {
+    return begin[idx + 1];
   }
 
   return NULL;
-- 
2.43.0


From abadaf705f9760b742d7c2632c3e30618ef604b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 07/30] fix: rcutils_split_last must not keep a trailing
 delimiter in a lone token

---
 src/split.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..9631323 100644
--- a/src/split.c
+++ b/src/split.c
@@ -161,13 +161,15 @@ rcutils_split_last(
       result_error = ret;
       goto fail;
     }
+    // a string of a single delimiter both starts and ends with it
+    size_t token_size = string_size > lhs_offset ? string_size - lhs_offset - rhs_offset : 0;
     string_array->data[0] =
-      allocator.allocate((found_last - lhs_offset + 2) * sizeof(char), allocator.state);
+      allocator.allocate((token_size + 2) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(string_array->data[0], found_last - lhs_offset + 1, "%s", str + lhs_offset);
+    snprintf(string_array->data[0], token_size + 1, "%s", str + lhs_offset);
   } else {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 2, &allocator);
     if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 1e4b93808930dcc73ea0a8946fdafd354aba2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 08/30] fix: rcutils_split_last must null terminate the token
 before a doubled leading delimiter

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 9631323..60a7f63 100644
--- a/src/split.c
+++ b/src/split.c
@@ -182,7 +182,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From 9659ceee72e9a51559df458f0c4992962889f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 09/30] fix: rcutils_strerror must not write into a buffer of
 length zero

---
 src/strerror.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strerror.c b/src/strerror.c
index a425010..e3ed710 100644
--- a/src/strerror.c
+++ b/src/strerror.c
@@ -25,6 +25,10 @@ extern "C"
 void
 rcutils_strerror(char * buffer, size_t buffer_length)
 {
+  if (buffer_length == 0) {
+    // There is no room for even the terminating null byte.
+    return;
+  }
 #if defined(_WIN32)
   strerror_s(buffer, buffer_length, errno);
 #elif defined(_GNU_SOURCE) && (!defined(ANDROID) || __ANDROID_API__ >= 23) && !defined(__QNXNTO__)
-- 
2.43.0


From a4e46b120b96ca1c170fd42c7674d0886aa5f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 10/30] fix: rcutils_get_executable_name must not overflow when
 the invocation name is empty

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..2c24903 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // There is always room for one character: basename() of an empty name is ".".
+  char * executable_name = allocator.allocate((applen > 0 ? applen : 1) + 1, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From b369a2290ccca29cf31f4e89514583c7d7bd383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 11/30] fix: refuse hash_map capacities whose byte size
 overflows

---
 src/hash_map.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..6488143 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -268,6 +269,13 @@ rcutils_hash_map_init(
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
+  // Rounding up to a power of two at most doubles the capacity: the array of buckets must still have
+  // a size that can be represented.
+  if (initial_capacity > SIZE_MAX / 2 / sizeof(rcutils_hash_map_impl_t)) {
+    RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
   // If the user passed us something that is not power-of-two, round up to the next power-of-two
   if ((initial_capacity & (initial_capacity - 1)) != 0) {
-- 
2.43.0


From 39da943facc7c17c01b400d20583b083e5f837d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 12/30] fix: string_map lookups by key length must not read
 past the given key

---
 src/string_map.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..88ac1d5 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -255,11 +255,10 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    // the given key might not be null terminated, so no more than key_length characters of it are read
+    if (strlen(string_map_impl->key_value_pairs[i].key) <= key_length &&
+      strncmp(key, string_map_impl->key_value_pairs[i].key, key_length) == 0)
+    {
       *index = i;
       return true;
     }
-- 
2.43.0


From 57b5aa4176390525e550b41cb5ef258dc4ecec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 13/30] fix: shrinking a string_map must not cut off pairs
 stored beyond unused slots

---
 src/string_map.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 88ac1d5..e3874bb 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,20 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, first move the pairs that are in use to the front, so that none is cut off
+    if (capacity < string_map->impl->capacity) {
+      key_value_pair_t * pairs = string_map->impl->key_value_pairs;
+      size_t used = 0;
+      for (size_t i = 0; i < string_map->impl->capacity; ++i) {
+        if (pairs[i].key != NULL) {
+          key_value_pair_t pair = pairs[i];
+          pairs[i].key = NULL;
+          pairs[i].value = NULL;
+          pairs[used++] = pair;
+        }
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From c63449178d1e5de5c155b6ad4a42bf8de1255da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 14/30] fix: rcutils_get_error_state must return NULL when no
 error is set, as documented

---
 src/error_handling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_handling.c b/src/error_handling.c
index a060537..c0bbbcf 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -230,6 +230,9 @@ rcutils_error_is_set(void)
 const rcutils_error_state_t *
 rcutils_get_error_state(void)
 {
+  if (!gtls_rcutils_error_is_set) {
+    return NULL;
+  }
   return &gtls_rcutils_error_state;
 }
 
-- 
2.43.0


From e734a3f5f16d2ccb930d71b5c1639536e8c02136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 15/30] fix: date strings must show the milliseconds, not the
 first digits of the nanoseconds

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..8dc5c93 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%09" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 762cfbc6e6f7e6673a356f1026ba666b046daa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 16/30] fix: rcutils_time_point_value_as_date_string must
 truncate to small buffers, as documented

---
 src/time.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index 8dc5c93..4ef2704 100644
--- a/src/time.c
+++ b/src/time.c
@@ -85,15 +85,12 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From c4dfe76533ad2554dc3e0794936dce34e18b24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 17/30] fix: rcutils_join_path must not truncate long paths

---
 src/filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..0f6bd4f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,9 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From 5f8205c68d41d56599e2e55b14c4bce03edb6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 18/30] fix: calculating the size of a directory must not crash
 on an empty directory stream

---
 src/filesystem.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 0f6bd4f..1206c31 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -387,12 +387,16 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // The first entry is missing if the directory stream is empty
+    while (NULL != iter->entry_name) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      if (!rcutils_dir_iter_next(iter)) {
+        break;
+      }
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From 9c4bf9269377f59884de8e29b669db046f9dfdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 19/30] fix: rcutils_dir_iter_next must not use an invalid
 iterator

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 1206c31..5c444fb 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -480,7 +480,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 31293035f70e3d3276b89e3d924165ee8da5d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 20/30] fix: the size of a directory must not follow symlinks,
 as documented

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 5c444fb..7a59f59 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -309,6 +309,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // Symlinks are not followed
+  struct stat link_stat;
+  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif  // _WIN32
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 570649d557c28ec497b357d49f4d899a4626b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 21/30] fix: rcutils_get_symbol must not take an earlier
 dynamic linking error for its own

---
 src/shared_library.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_library.c b/src/shared_library.c
index 077478f..c8ae0c5 100644
--- a/src/shared_library.c
+++ b/src/shared_library.c
@@ -203,6 +203,7 @@ rcutils_get_symbol(const rcutils_shared_library_t * lib, const char * symbol_nam
   }
 
 #ifndef _WIN32
+  dlerror(); /* Clear any existing error */
   void * lib_symbol = dlsym(lib->lib_pointer, symbol_name);
   char * error = dlerror();
   if (error != NULL) {
-- 
2.43.0


From 38711c2e4b188b24b6e00c6999316a79570e143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 22/30] fix: setting a logger level must not leak the name when
 the level cannot be stored

---
 src/logging.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..c42f8ca 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -917,6 +917,10 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From 2aa0afbc74206f04a1bdd25a182970ea33ece43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 23/30] fix: a logger must keep its level when setting a new
 one fails

---
 src/logging.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index c42f8ca..823930e 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1126,16 +1126,12 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
+        // If this is the key we are replacing, keep it; its level is going to be overwritten, and
+        // that way it isn't lost if memory runs out.
+        // Otherwise, this is a descendant; only remove it from the hash map
+        // if we cached it (the user didn't explicitly set it).
+        if (key[name_length] != '\0' && !(tmp_level & 0x1)) {
           free_current_key = true;
-        } else {
-          // Otherwise, this is a descendant; only remove it from the hash map
-          // if we cached it (the user didn't explicitly set it).
-          if (!(tmp_level & 0x1)) {
-            free_current_key = true;
-          }
         }
       }
 
-- 
2.43.0


From b1e183508da62210882cf8ad1c5be43b59a041dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 24/30] fix: setting the level of the unnamed logger must not
 shadow later changes of the default level

---
 src/logging.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 823930e..d11c255 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1111,6 +1111,12 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
 
   size_t name_length = strlen(name);
 
+  if (name_length == 0) {
+    // An empty name refers to the default logger level, which isn't part of the map
+    g_rcutils_logging_default_logger_level = level;
+    return RCUTILS_RET_OK;
+  }
+
   if (rcutils_hash_map_key_exists(&g_rcutils_logging_severities_map, &name)) {
     // Iterate over the entire contents of the severities map, looking for entries that start with
     // this key name.  For any ones that match, check whether the user explicitly set them.  If the
@@ -1173,11 +1179,6 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
-    // If the name was empty, this also means we should update the default logger level
-    g_rcutils_logging_default_logger_level = level;
-  }
-
   return add_key_ret;
 }
 
-- 
2.43.0


From f152540724541ee7a8d584767a30ac3a37041c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 25/30] fix: the logging output format must be decoded
 correctly after an unknown escape, and must not keep the tail of an earlier
 one

---
 src/logging.c | 79 +++++++++++++++++++++------------------------------
 1 file changed, 32 insertions(+), 47 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index d11c255..a04ea06 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,9 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
-  size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
   if (length > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {
@@ -470,64 +467,52 @@ static void create_format_string(
   }
 
   for (size_t i = 0; i < length; ) {
-    back_slash_index = rcutils_findn(
-      logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
-      break;
-    } else {
-      const char * expected_char = NULL;
-      int skip_chars = 0;
-
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
-      {
+    const char * current = logging_output_format_string + i;
+    size_t chars_to_copy = rcutils_findn(current, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
+
+    if (chars_to_copy == SIZE_MAX) {
+      // no escape characters left, copy the rest
+      chars_to_copy = length - i;
+    } else if (chars_to_copy == 0) {
+      char expected_char = '\0';
+      // the length of the escaped character in the output format string
+      size_t escape_length = 2;
+
+      if (current[1] == 'x' && current[2] == '1' && current[3] == 'b') {
         // detect escape sequence
         ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
-        expected_char = "\x1b";
-        // the 4 char long "\x1b" string literal will become a 2 char long \x1b escape sequence
-        // therefore we need to skip forward in parsing the output format string
-        skip_chars = 2;
+        expected_char = '\x1b';
+        escape_length = 4;
       } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
-          case 'a':  expected_char = "\a"; break;  // alert
-          case 'b':  expected_char = "\b"; break;  // backspace
-          case 'n':  expected_char = "\n"; break;  // new line
-          case 'r':  expected_char = "\r"; break;  // carriage return
-          case 't':  expected_char = "\t"; break;  // horizontal tab
+        switch (current[1]) {
+          case 'a':  expected_char = '\a'; break;  // alert
+          case 'b':  expected_char = '\b'; break;  // backspace
+          case 'n':  expected_char = '\n'; break;  // new line
+          case 'r':  expected_char = '\r'; break;  // carriage return
+          case 't':  expected_char = '\t'; break;  // horizontal tab
           default:
             break;
         }
       }
 
-      if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
-
+      if (expected_char != '\0') {
         // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
+        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char;
         dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
-      } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
+        i += escape_length;
+        continue;
       }
 
-      i += (back_slash_index + 2 + skip_chars);
+      // not an escape character, copy it as it is
+      chars_to_copy = length - i < 2 ? length - i : 2;
     }
+
+    memcpy(g_rcutils_logging_output_format_string + dest_buffer_index, current, chars_to_copy);
+    dest_buffer_index += chars_to_copy;
+    i += chars_to_copy;
   }
+
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 3d5f9199876edb5bd7208d5a9cc8b698764ec3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 26/30] fix: formatting a log message of unknown severity must
 fail, not read beyond the severity names

---
 src/logging.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index a04ea06..42b4ec9 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -286,7 +286,19 @@ static const char * expand_severity(
   (void)start_offset;
   (void)end_offset;
 
-  const char * severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  const char * severity_string = NULL;
+  if (logging_input->severity >= 0 &&
+    logging_input->severity <
+    (int)(sizeof(g_rcutils_log_severity_names) / sizeof(g_rcutils_log_severity_names[0])))
+  {
+    severity_string = g_rcutils_log_severity_names[logging_input->severity];
+  }
+  if (NULL == severity_string) {
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
+      "unknown severity level: %d\n", logging_input->severity);
+    return NULL;
+  }
+
   if (rcutils_char_array_strcat(logging_output, severity_string) != RCUTILS_RET_OK) {
     RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_get_error_string().str);
     rcutils_reset_error();
-- 
2.43.0


From 46c42f2a14b01019253d9345a6b73e22fbf95d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 27/30] fix: do not free the block twice in rcutils_reallocf
 with a size of zero

---
 src/allocator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..58d4251 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -109,6 +109,11 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
 #endif
     return NULL;
   }
+  if (0u == size) {
+    // reallocate() may free the block and return NULL then, so it must not be freed again
+    allocator->deallocate(pointer, allocator->state);
+    return NULL;
+  }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
   if (NULL == new_pointer) {
     allocator->deallocate(pointer, allocator->state);
-- 
2.43.0


From 1b180e364088eddd29114aabb4a38d1a711c9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 28/30] fix: error macros that append the previous error
 without one, or with percent signs in the message

---
 include/rcutils/error_handling.h | 47 +++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index ee5667a..d4247c1 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -321,10 +321,13 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s: %s", msg, error_string.str); \
+    } else { \
+      RCUTILS_SET_ERROR_MSG(msg); \
+    } \
   } while (0)
 
 /// Set the error message with RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING and append the previous
@@ -341,10 +344,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
+        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+    } else { \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+    } \
   } while (0)
 
 /// Write the given msg out to stderr, limiting the buffer size in the `fwrite`, appending the
@@ -355,10 +362,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    } else { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+    } \
   } while (0)
 
 /// Set the error message to stderr using a format string and format arguments, appending the
@@ -377,10 +388,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    } else { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+    } \
   } while (0)
 
 #ifdef __cplusplus
-- 
2.43.0


From 973760ce15ab54fcfd57f0d81c7f3eb6c46d5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 29/30] fix: locals of the error macros must not hide the
 caller's variables of the same name

---
 include/rcutils/error_handling.h | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index d4247c1..2319130 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -65,12 +65,14 @@ extern "C"
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char rcutils_fwrite_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int rcutils_fwrite_ret = rcutils_snprintf( \
+      rcutils_fwrite_output_msg, sizeof(rcutils_fwrite_output_msg), \
+      format_string, __VA_ARGS__); \
+    if (rcutils_fwrite_ret < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_fwrite_output_msg); \
     } \
   } while (0)
 
@@ -247,12 +249,14 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char rcutils_error_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int rcutils_error_ret = rcutils_snprintf( \
+      rcutils_error_output_msg, sizeof(rcutils_error_output_msg), \
+      format_string, __VA_ARGS__); \
+    if (rcutils_error_ret < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SET_ERROR_MSG(output_msg); \
+      RCUTILS_SET_ERROR_MSG(rcutils_error_output_msg); \
     } \
   } while (0)
 
@@ -322,9 +326,9 @@ rcutils_reset_error(void);
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
-      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s: %s", msg, error_string.str); \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s: %s", msg, rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SET_ERROR_MSG(msg); \
     } \
@@ -345,10 +349,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
     } \
@@ -363,10 +367,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
     } \
@@ -389,10 +393,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
     } \
-- 
2.43.0


From 0d982556b9ad8c98cf5dc5da0953eb91ee450d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 30/30] fix: the null check macros must test the whole value
 given, not its first operand

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 2319130..dedb5b3 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -219,7 +219,7 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
   do { \
-    if (NULL == value) { \
+    if (NULL == (value)) { \
       RCUTILS_SET_ERROR_MSG(msg); \
       error_statement; \
     } \
-- 
2.43.0

