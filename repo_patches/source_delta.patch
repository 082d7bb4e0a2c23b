From 6ac74b3a5da8589a1a8a8f910ef6fb9928b252b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 01/36] fix: keep the domain key of cookies whose domain has a
 trailing dot

---
 scarletio/web_common/cookiejar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 1f7c1fd..d87456b 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -324,7 +324,7 @@ class CookieJar:
             # ignore domains with trailing dots
             if domain.endswith('.'):
                 domain = ''
-                del cookie['domain']
+                cookie['domain'] = ''
             
             if not domain and host_name is not None:
                 # Set the cookie's domain to the response host_name and set its host-only-flag
-- 
2.43.0


From cb9dd7871795642aaa7a6156a10c58dfa354ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 02/36] fix: decode basic credentials containing new-lines

---
 scarletio/web_common/basic_authorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/basic_authorization.py b/scarletio/web_common/basic_authorization.py
index a8ab27a..8435d03 100755
--- a/scarletio/web_common/basic_authorization.py
+++ b/scarletio/web_common/basic_authorization.py
@@ -2,13 +2,13 @@ __all__ = ('BasicAuthorization', )
 
 from binascii import Error as EncodeOrDecodeError
 from base64 import b64decode as base64_decode, b64encode as base64_encode
-from re import compile as re_compile
+from re import DOTALL as re_dotall, compile as re_compile
 
 from ..utils import RichAttributeErrorBaseType
 
 
 AUTHORIZATION_HEADER_RP = re_compile('\\s*(.*?)\\s+(.*?)\\s*')
-USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?')
+USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?', re_dotall)
 BASIC_AUTH_DEFAULT_ENCODING = 'latin1'
 
 
-- 
2.43.0


From 10202dc95e47d546e29ac05fcf32000f19300271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 03/36] fix: build the basic authorization header as ascii for
 every encoding

---
 scarletio/web_common/basic_authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/basic_authorization.py b/scarletio/web_common/basic_authorization.py
index 8435d03..0120926 100755
--- a/scarletio/web_common/basic_authorization.py
+++ b/scarletio/web_common/basic_authorization.py
@@ -207,4 +207,4 @@ class BasicAuthorization(RichAttributeErrorBaseType):
         -------
         authorization_header : `str`
         """
-        return f'Basic {base64_encode((f"{self.user_id}:{self.password}").encode(self.encoding)).decode(self.encoding)}'
+        return f'Basic {base64_encode((f"{self.user_id}:{self.password}").encode(self.encoding)).decode("ascii")}'
-- 
2.43.0


From f529c1d94406e30d84ff3fd474603ecb57e97667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 04/36] fix: keep HTTP/1.0 connections alive only when the
 connection header asks for it

---
 scarletio/web_common/http_message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index e6a0cc2..a75a5ca 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -280,7 +280,11 @@ class RawMessage(RichAttributeErrorBaseType):
         except KeyError:
             keep_alive_enabled = self.version >= HttpVersion11
         else:
-            keep_alive_enabled = ('close' not in connection.casefold())
+            connection = connection.casefold()
+            keep_alive_enabled = (
+                ('close' not in connection) and
+                ((self.version >= HttpVersion11) or ('keep-alive' in connection))
+            )
         
         if keep_alive_enabled:
             keep_alive = KeepAliveInfo.from_header_value(self.headers.get(KEEP_ALIVE))
-- 
2.43.0


From fd0a320956e74e6941db882641da4a838dfc9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 05/36] fix: extend a sorted list with itself without looping
 forever

---
 scarletio/utils/sorted_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/utils/sorted_list.py b/scarletio/utils/sorted_list.py
index 957c39a..a458787 100755
--- a/scarletio/utils/sorted_list.py
+++ b/scarletio/utils/sorted_list.py
@@ -155,6 +155,10 @@ class SortedList(list):
         iterable : `iterable`
             Iterable object to extend the SortedList with.
         """
+        if iterable is self:
+            # Do not iterate over the list we are inserting into.
+            iterable = self.copy()
+        
         ln = len(self)
         insert = list.insert
         bot = 0
-- 
2.43.0


From c07ec9abd26f7557bf11841f44d5f89f30bef661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 06/36] fix: comparing ignore case strings to other objects,
 and inequality ignoring the casing

---
 scarletio/utils/ignore_case_string.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/ignore_case_string.py b/scarletio/utils/ignore_case_string.py
index 476deb2..9eafeca 100755
--- a/scarletio/utils/ignore_case_string.py
+++ b/scarletio/utils/ignore_case_string.py
@@ -78,9 +78,18 @@ class IgnoreCaseString(str):
             other_value = other._case_fold
         elif other_type is str:
             other_value = other.casefold()
-        elif issubclass(other, str):
+        elif issubclass(other_type, str):
             other_value = str.casefold(other)
         else:
             return NotImplemented
         
         return (self._case_fold == other_value)
+    
+    
+    def __ne__(self, other):
+        """Returns whether the two strings are different."""
+        equals = self.__eq__(other)
+        if equals is NotImplemented:
+            return NotImplemented
+        
+        return not equals
-- 
2.43.0


From 4c803ebd436cce0de50e573db5e49a2e6002811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 07/36] fix: keep every value when keys of the source only
 differ in casing

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 388e15f..16d9944 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -28,14 +28,9 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
             for key, values in dict.items(iterable):
                 set_item(self, key, values.copy())
         
-        elif isinstance(iterable, MultiValueDictionary):
-            for key, values in dict.items(iterable):
-                set_item(self, IgnoreCaseString(key), values.copy())
-        
         elif isinstance(iterable, dict):
-            for key, value in iterable.items():
-                key = IgnoreCaseString(key)
-                set_item(self, key, [value])
+            # Keys only differing in casing are the same key here.
+            IgnoreCaseMultiValueDictionary.extend(self, iterable)
         
         else:
             for item in iterable:
-- 
2.43.0


From 2773471e75bbcc98b52deb0ab4464c9b7548d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 08/36] fix: membership of ignore case dictionaries ignores the
 casing

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 5 +++++
 scarletio/utils/multi_value_dictionary.py             | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 16d9944..9f04b8b 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -58,6 +58,11 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
         return dict.__getitem__(self, key)[0]
     
     
+    def __contains__(self, key):
+        """Returns whether the dictionary contains the given key."""
+        return dict.__contains__(self, IgnoreCaseString(key))
+    
+    
     @copy_docs(MultiValueDictionary.__setitem__)
     def __setitem__(self, key, value):
         key = IgnoreCaseString(key)
diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index e488c1d..10350a8 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -36,9 +36,8 @@ class _MultiValueDictionaryItemIterator(DictionaryItemIteratorBase):
         
         key, value = item
         
-        try:
-            values = dict.__getitem__(self._parent, key)
-        except KeyError:
+        values = self._parent.get_all(key)
+        if values is None:
             return False
         
         return value in values
-- 
2.43.0


From 24ff5469ceed88648a52fb3a34e7cc09d20c4c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 09/36] fix: do not inherit the dict union operators, they
 break multi value dictionaries

---
 scarletio/utils/multi_value_dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index 10350a8..6014607 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -483,3 +483,7 @@ class MultiValueDictionary(dict):
         return result
     
     update = RemovedDescriptor()
+    # The operators of `dict` would store bare values & share the value lists.
+    __or__ = RemovedDescriptor()
+    __ror__ = RemovedDescriptor()
+    __ior__ = RemovedDescriptor()
-- 
2.43.0


From 42ceb7bb9bb0b1776199efa5849957a5fb90d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 10/36] fix: multi value dictionaries can be copied with the
 copy module and pickled

---
 scarletio/utils/multi_value_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index 6014607..f9116c2 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -198,7 +198,7 @@ class MultiValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), [*self.items()])
+        return (type(self), ([*self.items()],))
     
     
     @has_docs
-- 
2.43.0


From 93c2b283fb8d966d003d4f248ad8af4b8c0f3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 11/36] fix: reading dns names ends, and at the end of the name

---
 scarletio/dns_query/building_and_parsing.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a9bfb29..30b63f1 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -111,7 +111,9 @@ def _parse_labels(data, index):
     """
     labels = None
     data_length = len(data)
+    start_index = index
     furthest_index = index
+    jumped = False
     
     while True:
         # Bound check index
@@ -125,7 +127,8 @@ def _parse_labels(data, index):
         
         label_length = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
         if label_length == 0:
             response_parsing_error = None
             break
@@ -170,17 +173,21 @@ def _parse_labels(data, index):
         
         addition = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
+            jumped = True
         index = ((label_length & 0x3f) << 8) | addition
         
-        # Only backwards jumps are allowed.
-        if index > furthest_index:
+        # Only backwards jumps are allowed: before the labels it is jumped from. Else it could be jumped in cycles.
+        if index >= start_index:
             response_parsing_error =  ResponseParsingError(
                 RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
                 data,
                 (furthest_index, index),
             )
             break
+        
+        start_index = index
     
     if (response_parsing_error is not None):
         return (None, response_parsing_error)
-- 
2.43.0


From 7c63aa38d48c4ab8ddd84d816fbbe9bc77de382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 12/36] fix: broken domain name pointers are no domain names

---
 scarletio/dns_query/building_and_parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index 30b63f1..38a1a97 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -489,6 +489,8 @@ def parse_domain_name_pointer_data(data):
         return None
     
     labels_and_furthest_index, response_parsing_error = _parse_labels(data, 0)
+    if response_parsing_error is not None:
+        return None
     
     labels, furthest_index = labels_and_furthest_index
     if labels is None:
-- 
2.43.0


From 4ed275fa6041011dc4a886ef0a2495dbe49d5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 13/36] fix: an abandoned exact read leaves no stale offset
 behind

---
 scarletio/core/protocols_and_transports/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index be0b7d1..3832d0e 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -859,6 +859,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             
             n -= (chunk_size - offset)
             del chunks[0]
+            self._offset = 0
             yield memoryview(chunk)[offset:]
         
         while True:
-- 
2.43.0


From 280592dc8d52555961d852d17cb8f58260282e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 14/36] fix: find boundaries split after an already read part
 of a chunk

---
 scarletio/core/protocols_and_transports/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 3832d0e..e2b8402 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1038,7 +1038,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             self._offset = 0
             if offset:
                 chunk = memoryview(chunk)[offset:]
-            intersection_sizes = _get_end_intersection_sizes(chunk, offset, boundary)
+            intersection_sizes = _get_end_intersection_sizes(chunk, 0, boundary)
             if (intersection_sizes is not None):
                 offset = len(chunk) - intersection_sizes[0]
                 held_back = [memoryview(chunk)[offset:]]
-- 
2.43.0


From 81ab91996905c694ae9212b5b982362b23eb4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 15/36] fix: release what was held back before a boundary that
 ends with the chunk

---
 scarletio/core/protocols_and_transports/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index e2b8402..9780a66 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -982,12 +982,13 @@ class ReadProtocolBase(AbstractProtocolBase):
                 # Found boundary in between?
                 if offset != -1:
                     # Do not offset if offset if at the end of the chunk. Delete chunk instead.
+                    amount_to_keep = len(boundary) - offset
                     if offset == len(chunk):
                         del chunks[0]
                         offset = 0
                     self._offset = offset
                     
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
+                    released, held_back = _get_released_from_held_back(held_back, amount_to_keep)
                     if (released is not None):
                         for to_release in released:
                             yield to_release
-- 
2.43.0


From 3fb2777a3ff986d8bbcd985a9ac69e0317484e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 16/36] fix: release everything held back when no part of the
 boundary is left

---
 scarletio/core/protocols_and_transports/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 9780a66..9ee36d5 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1012,7 +1012,9 @@ class ReadProtocolBase(AbstractProtocolBase):
                         _continue_intersection_sizes(chunk, boundary, intersection_sizes),
                         _get_end_intersection_sizes(chunk, 0, boundary),
                     )
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary))
+                    released, held_back = _get_released_from_held_back(
+                        held_back, 0 if intersection_sizes is None else len(boundary)
+                    )
                     if (released is not None):
                         for to_release in released:
                             yield to_release
-- 
2.43.0


From 477ee2eae28accb21f7d0a6a155db03bd5f69648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 17/36] fix: pass the lock on when its next holder is cancelled
 before entering

---
 scarletio/core/traps/locks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index 2ebe9d5..178f76a 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -72,7 +72,8 @@ class Lock:
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was handed over to us already, hand it over to the next one.
+                    self.release()
                 
                 raise
     
@@ -217,7 +218,8 @@ class ScarletLock(Lock):
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was handed over to us already, hand it over to the next one.
+                    self.release()
                 
                 raise
     
-- 
2.43.0


From c7226f6b5ac063981b483d9ddd4a23a70a98318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 18/36] fix: cancelling a task with an exception also reaches a
 task about to go on

---
 scarletio/core/traps/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 34f6ee7..bcf3efd 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -147,7 +147,7 @@ class Task(Future):
                 )
             
             waited_future = self._waited_future
-            if (waited_future is None) or waited_future.cancel():
+            if (waited_future is None) or (not waited_future.cancel()):
                 state |= FUTURE_STATE_CANCELLING_SELF
             
             self._result = exception
-- 
2.43.0


From 2aacb077f1592c98939397ad8baa57ba0abdd258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 19/36] fix: unquote reads every base-16 digit, keeps what it
 cannot decode and plus signs outside of queries

---
 scarletio/web_common/quoting.py       | 67 +++++++++++++--------------
 scarletio/web_common/url/url_query.py |  2 +-
 2 files changed, 32 insertions(+), 37 deletions(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index d019b90..c2668b7 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -45,18 +45,15 @@ def _base_16_char_to_int(char):
     Returns
     -------
     value : `int`
+        Returns `-1` if the character is not base-16.
     """
-    value = char & 0x7
     if char >= b'0'[0] and char <= b'9'[0]:
-        pass
-    elif (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
-        value += 9
-    else:
-        raise ValueError(
-            f'Unallowed character in percentage: {chr(char)!r}.'
-        )
+        return char & 0xf
+    
+    if (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
+        return (char & 0x7) + 9
     
-    return value
+    return -1
 
 
 def _int_to_base_16_char(value):
@@ -193,8 +190,8 @@ def unquote(value, unsafe = None, query_string = False):
         return ''
     
     percentages = None
+    percentages_start = 0
     result = []
-    joined = -1
     
     if (unsafe is not None):
         try:
@@ -202,8 +199,11 @@ def unquote(value, unsafe = None, query_string = False):
         except KeyError:
             unsafe = UNQUOTE_UNSAFE_MAP[unsafe] = frozenset(unsafe)
     
-    iterator = iter(value)
-    for char in iterator:
+    index = 0
+    end = len(value)
+    while index < end:
+        char = value[index]
+        
         if (percentages is not None):
             try:
                 unquoted = percentages.decode('utf8')
@@ -219,29 +219,27 @@ def unquote(value, unsafe = None, query_string = False):
                 
                 percentages = None
         
-        if char == '%':
-            try:
-                char_0 = next(iterator)
-                char_1 = next(iterator)
-            except StopIteration:
-                break
-            
-            joined = (_base_16_char_to_int(ord(char_0)) << 4) | _base_16_char_to_int(ord(char_1))
-            
-            if (percentages is None):
-                percentages = bytearray()
-            
-            percentages.append(joined)
-            continue
+        if (char == '%') and (index + 2 < end):
+            high = _base_16_char_to_int(ord(value[index + 1]))
+            low = _base_16_char_to_int(ord(value[index + 2]))
+            if (high != -1) and (low != -1):
+                if (percentages is None):
+                    percentages = bytearray()
+                    percentages_start = index
+                
+                percentages.append((high << 4) | low)
+                index += 3
+                continue
         
-        if (percentages is not None) and (joined != -1):
-            result.append('%')
-            result.append(char_0)
-            result.append(char_1)
-            joined = -1
+        if (percentages is not None):
+            # The percentages do not make up valid text, leave them as they are.
+            result.append(value[percentages_start : index])
+            percentages = None
+        
+        index += 1
         
         if char == '+':
-            if (unsafe is None) or (char not in unsafe):
+            if query_string and ((unsafe is None) or (char not in unsafe)):
                 char = ' '
             
             result.append(char)
@@ -260,10 +258,7 @@ def unquote(value, unsafe = None, query_string = False):
         try:
             unquoted = percentages.decode('utf8')
         except UnicodeDecodeError:
-            if (joined != -1):
-                result.append('%')
-                result.append(char_0)
-                result.append(char_1)
+            result.append(value[percentages_start:])
         
         else:
             if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index 307b091..bb012da 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,7 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
-decode = unquote
+decode = lambda value: unquote(value if (value is None) else value.replace('+', ' '))
 
 
 def parse_query(query_string, encoded):
-- 
2.43.0


From 46b47851afdf95c964c3a7bd5dad10da8e26d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 20/36] fix: escape '=' in the keys of a query string

---
 scarletio/web_common/url/url_query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index bb012da..0e71f16 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,6 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
+encode_key = lambda value: quote(value, safe = '/?:@', query_string = True)
 decode = lambda value: unquote(value if (value is None) else value.replace('+', ' '))
 
 
@@ -293,7 +294,7 @@ def serialize_query(query, encoded):
     # Sort the keys to always get the same output.
     for query_key in sorted(query.keys()):
         if encoded:
-            query_key_processed = encode(query_key)
+            query_key_processed = encode_key(query_key)
         else:
             query_key_processed = query_key
         
-- 
2.43.0


From 980bf9d8f6b717666b0c6861757c58b6e62cb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 21/36] fix: accept only hexadecimal digits as chunk size

---
 scarletio/web_common/http_protocol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 334031d..0f516da 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -481,12 +481,14 @@ class HttpReadProtocol(ReadProtocolBase):
             if index != -1:
                 line = line[:index]
             
-            try:
-                length = int(line, 16)
-            except ValueError:
+            # `int` accepts signs, prefix and underscores as well, which are not allowed here.
+            line = line.strip(b' \t')
+            if (not line) or line.strip(b'0123456789abcdefABCDEF'):
                 raise PayloadError(
                     f'Not hexadecimal chunk size: {line!r}.'
-                ) from None
+                )
+            
+            length = int(line, 16)
             
             if length == 0:
                 end = await self._read_exactly_as_one(2)
-- 
2.43.0


From 82d2a198a4a5f6b1bdf9fdf677a36c0445ce4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 22/36] fix: do not accept non-decimal or oversized content
 length, handle payload of requests

---
 scarletio/web_common/http_protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 0f516da..e0d00ef 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -407,13 +407,14 @@ class HttpReadProtocol(ReadProtocolBase):
         """
         length = message.headers.get(CONTENT_LENGTH, None)
         if (length is not None):
-            if not length.isdigit():
+            # `str.isdigit` accepts other digits as well, and `int` refuses too long ones.
+            if not (length.isascii() and length.isdigit() and len(length) <= 20):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
             length = int(length)
         
         if (not message.upgraded):
-            if should_status_code_have_empty_payload(message.status):
+            if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
             if message.chunked:
-- 
2.43.0


From 234e84ea41fd61efdcc775a1e5653cbe66df7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 23/36] fix: write the minor version into the request line

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index e0d00ef..c4c5841 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -714,7 +714,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
+        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
             extend((k, ': ', v, '\r\n'))
-- 
2.43.0


From 794436011ccae587bf7fe769e24326cf0c72df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 24/36] fix: limit version digits and refuse line breaks in the
 http start line

---
 scarletio/web_common/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/helpers.py b/scarletio/web_common/helpers.py
index 820cdb9..a95dba1 100755
--- a/scarletio/web_common/helpers.py
+++ b/scarletio/web_common/helpers.py
@@ -362,8 +362,8 @@ def freeze_headers(headers):
         return (*((key, tuple(headers.get_all(key, ()))) for key in sorted(headers.keys())),)
 
 
-HTTP_STATUS_RP = re_compile(b'[ \t]*HTTP/(\\d+)\\.(\\d+)[ \t]+(\\d\\d\\d)(?:[ \t]+(.*?))?[ \t]*(?:\r\n|$)')
-HTTP_REQUEST_RP = re_compile(b'[ \t]*([^ \t]+)[ \t]+([^ \t]+)[ \t]+HTTP/(\\d+)\\.(\\d+)[ \t]*(?:\r\n|$)')
+HTTP_STATUS_RP = re_compile(b'[ \t]*HTTP/(\\d{1,9})\\.(\\d{1,9})[ \t]+(\\d\\d\\d)(?:[ \t]+(.*?))?[ \t]*(?:\r\n|$)')
+HTTP_REQUEST_RP = re_compile(b'[ \t]*([^ \t\r\n]+)[ \t]+([^ \t\r\n]+)[ \t]+HTTP/(\\d{1,9})\\.(\\d{1,9})[ \t]*(?:\r\n|$)')
 
 
 def parse_http_response(data):
-- 
2.43.0


From 74e4b6565572a54d5a7620e39aba0a95562651f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 25/36] fix: strip header names and refuse empty ones

---
 scarletio/web_common/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/helpers.py b/scarletio/web_common/helpers.py
index a95dba1..cb63a6e 100755
--- a/scarletio/web_common/helpers.py
+++ b/scarletio/web_common/helpers.py
@@ -477,7 +477,10 @@ def parse_http_headers(data, offset):
         if middle_index <= offset:
             raise PayloadError(f'Invalid header line: {data[offset : end_index]!r}.')
         
-        name = data[offset : middle_index].lstrip()
+        name = data[offset : middle_index].strip()
+        if not name:
+            raise PayloadError(f'Invalid header line: {data[offset : end_index]!r}.')
+        
         value = data[middle_index + 1 : end_index].strip()
         offset = end_index + 2
             
-- 
2.43.0


From 4ecca123eef1f0b0c231961e31d60b2bb280c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 26/36] fix: do not lose or double propagate popped futures of
 task groups

---
 scarletio/core/traps/task_group.py | 38 ++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 01806fa..2e4e489 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -180,8 +180,12 @@ def _handler_wait_first_and_pop(task_group):
     if done:
         return 1, done.pop()
     
-    if task_group.pending:
-        return 0, (yield 0)
+    while task_group.pending:
+        future = (yield 1)
+        # An other waiter may have popped it already.
+        if future in done:
+            done.discard(future)
+            return 0, future
     
     return 1, None
     
@@ -255,7 +259,9 @@ def _handler_wait_exception_and_pop(task_group):
             return 1, None
         
         future = (yield 1)
-        if future._state & FUTURE_STATE_RESULT_RAISE:
+        # An other waiter may have popped it already.
+        if (future._state & FUTURE_STATE_RESULT_RAISE) and (future in task_group.done):
+            task_group.done.discard(future)
             return 0, future
 
 
@@ -328,7 +334,9 @@ def _handler_wait_exception_or_cancellation_and_pop(task_group):
             return 1, None
         
         future = (yield 1)
-        if future._state & FUTURE_STATE_CANCELLED_OR_RAISE:
+        # An other waiter may have popped it already.
+        if (future._state & FUTURE_STATE_CANCELLED_OR_RAISE) and (future in task_group.done):
+            task_group.done.discard(future)
             return 0, future
 
 
@@ -454,17 +462,20 @@ class TaskGroup(RichAttributeErrorBaseType):
             An added future.
         """
         self.pending.discard(future)
-    
+        # Popping handlers remove the future from the done ones.
+        self.done.add(future)
+        
         done_waiters = None
-        should_add_to_done = 1
         
         for waiter, handler in self.waiters.items():
+            # If the waiter is already cancelled, its handler may not take the future.
+            if waiter.is_done():
+                continue
+            
             try:
-                should_add_to_done &= handler.send(future)
+                handler.send(future)
             except StopIteration as err:
-                result = err.value
-                should_add_to_done &= result[0]
-                waiter.set_result_if_pending(result[1])
+                waiter.set_result_if_pending(err.value[1])
                 
                 if done_waiters is None:
                     done_waiters = []
@@ -477,9 +488,6 @@ class TaskGroup(RichAttributeErrorBaseType):
                     done_waiters = []
                 done_waiters.append(waiter)
         
-        if should_add_to_done:
-            self.done.add(future)
-        
         if (done_waiters is not None):
             for waiter in done_waiters:
                 try:
@@ -560,6 +568,10 @@ class TaskGroup(RichAttributeErrorBaseType):
         task_group = TaskGroup(loop, [Task(loop, coro(12)), Future(loop)])
         ```
         """
+        # If the future is already added, it is handled when it finishes.
+        if (future in self.pending) or (future in self.done):
+            return future
+        
         if future.is_done():
             self._waited_done_callback(future)
         else:
-- 
2.43.0


From da585ae366d6d929615743bc17d40a73c661de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 27/36] fix: escape codes of dns names are ascii digits

---
 scarletio/dns_query/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 82fd3f5..67ce5ca 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -55,7 +55,8 @@ def parse_labels_from_name(name):
             raise ValueError(f'Escape at the end of name is not allowed; name = {name!r}')
         
         character = name[index]
-        if not character.isdigit():
+        # `str.isdigit` accepts non-ascii digits too.
+        if not ('0' <= character <= '9'):
             part_parts.append(character)
             index += 1
             continue
@@ -69,7 +70,7 @@ def parse_labels_from_name(name):
                 raise ValueError(f'Escape code not long enough at the end of the name; name = {name!r}')
             
             character = name[index]
-            if not character.isdigit():
+            if not ('0' <= character <= '9'):
                 # After the first character is a digit, the next 2 also has to be.
                 raise ValueError(
                     f'Escape code too short in the middle of the name; name = {name!r}; index = {index!r}.'
-- 
2.43.0


From c13cce4c70ae15d2e554403aa498db6691640957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 28/36] fix: an escaped at sign is a dns label

---
 scarletio/dns_query/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 67ce5ca..dfbe8b5 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -93,8 +93,8 @@ def parse_labels_from_name(name):
         split.append(''.join(part_parts))
     part_parts = None
     
-    # If we ended up with an empty split, or if the only split is a `@`, we can return nothing.
-    if (not split) or ((len(split) == 1)) and (split[0] in ('@', '')):
+    # If we ended up with an empty split, or if the only split is a not escaped `@`, we can return nothing.
+    if name in ('', '.', '@', '@.'):
         return None
     
     # If we have any empty parts after the splitting and exception case handling, we raise an error.
-- 
2.43.0


From fd44c22f36bfa0e1c4331e0cb6ca5baa1f9d959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 29/36] fix: escape only characters up to 255 by their code

---
 scarletio/dns_query/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index dfbe8b5..06d6c99 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -201,7 +201,8 @@ def build_name_from_labels(labels):
                 continue
             
             character_code_point = ord(character)
-            if (not character.isprintable()) or (character_code_point < 33):
+            # Only characters up to 255 can be escaped with their code.
+            if (character_code_point < 256) and ((not character.isprintable()) or (character_code_point < 33)):
                 characters.append('\\')
                 if character_code_point < 100:
                     characters.append('0')
-- 
2.43.0


From 5de5d97760bfc4c53f71adeb0f0eb72fb454ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 30/36] fix: end record of zip archives of more than 65535
 files

---
 scarletio/streaming/zip_streaming/zip_stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/zip_stream.py b/scarletio/streaming/zip_streaming/zip_stream.py
index 3143a2c..d91775e 100755
--- a/scarletio/streaming/zip_streaming/zip_stream.py
+++ b/scarletio/streaming/zip_streaming/zip_stream.py
@@ -200,8 +200,8 @@ def _create_end_of_central_directory_record(files_count):
         END_OF_CENTRAL_DIRECTORY_RECORD_SIGNATURE,
         0,
         0,
-        files_count,
-        files_count,
+        min(files_count, 0xffff),
+        min(files_count, 0xffff),
         0xffffffff,
         0xffffffff,
         0,
-- 
2.43.0


From eb17467c104e7a6585de8b926e1a48377cb222a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 31/36] fix: names of zip entries with very long indexes

---
 scarletio/streaming/zip_streaming/name_deduplication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 58affd0..8bb07e5 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -3,7 +3,7 @@ __all__ = ('name_deduplicator_default',)
 from re import compile as re_compile
 
 
-NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT = re_compile('((?:.*/)?.*?)(?: \\((\\d+)\\))?(?:\\.(.*?))?')
+NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT = re_compile('((?:.*/)?.*?)(?: \\((\\d{1,9})\\))?(?:\\.(.*?))?')
 
 
 def name_deduplicator_name_reconstructor_default(path, index, extension):
-- 
2.43.0


From 13ca0080e0f97d070cb5fedabc9c3a329214193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 32/36] fix: deduplicated zip entry names are distinct

---
 .../streaming/zip_streaming/name_deduplication.py     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 8bb07e5..d279d82 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -58,6 +58,7 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
     name : `str`
     """
     collected = {}
+    names = set()
     name = yield
     
     while True:
@@ -102,9 +103,15 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
             
             counter = new_index
         
-        collected[key] = (counter, taken_values)
-        
         if (index != new_index):
             name = name_reconstructor(path, new_index, extension)
         
+        # The name could have been produced already from an other path.
+        while name in names:
+            counter += 1
+            name = name_reconstructor(path, counter, extension)
+        
+        names.add(name)
+        collected[key] = (counter, taken_values)
+        
         name = yield name
-- 
2.43.0


From 520f09f17e721cd0c3072573b30f2490e71cc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:08 +0000
Subject: [PATCH 33/36] fix: async queues lose no item and leave no one waiting
 when takers or setters are cancelled

Takers shared one future: an item given to it was lost when its taker was cancelled, and several takers got the
same item. Setters appended without checking for place again after waiting, and were not woken when an item was
taken without waiting or the queue was cleared. The LIFO variants ignored the order when awaited through
get_result, and iterating took the taker's own cancellation for the end of the queue.
---
 scarletio/core/traps/queues.py | 332 ++++++++++++++-------------------
 1 file changed, 136 insertions(+), 196 deletions(-)

diff --git a/scarletio/core/traps/queues.py b/scarletio/core/traps/queues.py
index 60b24c0..7966217 100755
--- a/scarletio/core/traps/queues.py
+++ b/scarletio/core/traps/queues.py
@@ -12,6 +12,36 @@ from .future import Future
 ignore_frame(__spec__.origin, 'get_result_no_wait', 'raise exception',)
 ignore_frame(__spec__.origin, '__aexit__', 'raise exception',)
 
+
+def _wake_up_next(waiters):
+    """
+    Wakes up the next waiter that is still waiting.
+    
+    Parameters
+    ----------
+    waiters : `list<Future>`
+        Waiters to wake up one of. The touched ones are removed from it.
+    """
+    while waiters:
+        if waiters.pop(0).set_result_if_pending(True):
+            break
+
+
+def _wake_up_all(waiters, result):
+    """
+    Wakes up every waiter.
+    
+    Parameters
+    ----------
+    waiters : `list<Future>`
+        Waiters to wake up. They are removed from it.
+    result : `bool`
+        The result to set.
+    """
+    while waiters:
+        waiters.pop(0).set_result_if_pending(result)
+
+
 class AsyncQueue:
     """
     An asynchronous FIFO queue.
@@ -30,14 +60,13 @@ class AsyncQueue:
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
     
-    _set_result_waiters : `None`, `list` of ``Future``
-        Result setter waiters for the queue to become empty.
+    _set_result_waiters : `list` of ``Future``
+        Result setters waiting for the queue to have place. When woken up they check again whether it has.
     
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `list` of ``Future``
+        Result getters waiting for the queue to have a result. When woken up they check again whether it has.
     """
-    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiter',)
+    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiters',)
     
     def __new__(cls, loop, iterable = None, max_length = None, exception = None):
         """
@@ -76,16 +105,15 @@ class AsyncQueue:
         self = object.__new__(cls)
         self._loop = loop
         self._results = results
-        self._waiter = None
+        self._waiters = []
         self._exception = exception
-        self._set_result_waiters = None
+        self._set_result_waiters = []
         return self
     
     
     def set_result(self, element):
         """
-        Puts the given `element` on the queue. If the queue is empty and it's result is already waited, feeds it to
-        ``._waiter`` instead.
+        Puts the given `element` on the queue. If it's result is already waited, wakes up a waiter.
         
         Parameters
         ----------
@@ -98,21 +126,25 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`.
         """
         # should we raise InvalidStateError?
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result = 1
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+        if self._is_full():
+            return 1
         
-        return set_result
+        self._results.append(element)
+        _wake_up_next(self._waiters)
+        return 0
+    
+    
+    def _is_full(self):
+        """
+        Returns whether the queue has no place for more results.
+        
+        Returns
+        -------
+        is_full : `bool`
+        """
+        results = self._results
+        max_length = results.maxlen
+        return (max_length is not None) and (len(results) >= max_length)
     
     
     async def set_result_wait(self, element):
@@ -132,55 +164,38 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`. If you needed to wait
             for setting the result, returns `2`.
         """
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result_waiters = self._set_result_waiters
-                if (set_result_waiters is None):
-                    set_result_waiters = []
-                    self._set_result_waiters = set_result_waiters
-                
-                waiter = Future(self._loop)
-                
-                set_result_waiters.append(waiter)
-                
+        set_result = 0
+        
+        while self._is_full():
+            waiter = Future(self._loop)
+            self._set_result_waiters.append(waiter)
+            
+            try:
+                can_set_result = await waiter
+            except:
                 try:
-                    can_set_result = await waiter
-                except:
-                    try:
-                        set_result_waiters.remove(waiter)
-                    except ValueError:
-                        pass
-                    else:
-                        if not set_result_waiters:
-                            self._set_result_waiters = None
-                    
-                    raise
-                
-                else:
-                    if can_set_result:
-                        results.append(element)
-                        set_result = 2
-                    else:
-                        set_result = 1
+                    self._set_result_waiters.remove(waiter)
+                except ValueError:
+                    # We were woken up already. Let someone else use the place.
+                    if not self._is_full():
+                        _wake_up_next(self._set_result_waiters)
                 
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+                raise
+            
+            if not can_set_result:
+                return 1
+            
+            set_result = 2
         
+        self._results.append(element)
+        _wake_up_next(self._waiters)
         return set_result
     
     
     def set_exception(self, exception):
         """
-        Sets the given `exception` to raise, when it's queue gets empty. If the queue is empty and it's result is
-        already waited, feeds it to ``._waiter`` instead.
+        Sets the given `exception` to raise, when it's queue gets empty. If it's result is already waited, wakes up
+        every waiter.
         
         Parameters
         ----------
@@ -203,19 +218,33 @@ class AsyncQueue:
         
         self._exception = exception
         
-        waiter = self._waiter
-        if (waiter is not None):
-            self._waiter = None
-            waiter.set_exception_if_pending(exception)
+        _wake_up_all(self._waiters, True)
+        _wake_up_all(self._set_result_waiters, False)
+    
+    
+    @to_coroutine
+    def _wait_for_result(self):
+        """
+        Waits till the queue has either a result or an exception set.
         
-        # cancel all waiters
-        set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            self._set_result_waiters = None
-            
-            while set_result_waiters:
-                set_result_waiters.pop(0).set_result_if_pending(False)
+        This method is an awaitable generator.
+        """
+        while (not self._results) and (self._exception is None):
+            waiter = Future(self._loop)
+            self._waiters.append(waiter)
             
+            try:
+                yield from waiter
+            except:
+                try:
+                    self._waiters.remove(waiter)
+                except ValueError:
+                    # We were woken up already. Let someone else get the result.
+                    if self._results:
+                        _wake_up_next(self._waiters)
+                
+                raise
+    
     
     def __await__(self):
         """
@@ -234,23 +263,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            return results.popleft()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (yield from waiter)
-        finally:
-            self._poll_from_set_result_waiters()
+        yield from self._wait_for_result()
+        return self.get_result_no_wait()
     
     get_result = to_coroutine(copy_func(__await__))
     
@@ -259,21 +273,15 @@ class AsyncQueue:
         return self.get_result
     
     
-    def _poll_from_set_result_waiters(self):
+    def _pop_result(self):
         """
-        Polls one future from set result waiters.
+        Removes and returns the next result of the queue.
+        
+        Returns
+        -------
+        result : `object`
         """
-        set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            while True:
-                set_result = set_result_waiters.pop(0).set_result_if_pending(True)
-                
-                if (not set_result_waiters):
-                    self._set_result_waiters = None
-                    break
-                
-                if set_result == 1:
-                    break
+        return self._results.popleft()
     
     
     def get_result_no_wait(self):
@@ -294,10 +302,9 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
+        if self._results:
+            result = self._pop_result()
+            _wake_up_next(self._set_result_waiters)
             return result
         
         exception = self._exception
@@ -382,28 +389,12 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
+        await self._wait_for_result()
         
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
+        if (not self._results) and (type(self._exception) is CancelledError):
+            raise StopAsyncIteration from CancelledError
         
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+        return self.get_result_no_wait()
     
     # deque operations
     
@@ -423,7 +414,10 @@ class AsyncQueue:
         """
         Clears the queue's results.
         """
-        self._results.clear()
+        results = self._results
+        while results:
+            results.pop()
+            _wake_up_next(self._set_result_waiters)
     
     
     def copy(self):
@@ -438,9 +432,9 @@ class AsyncQueue:
         
         new._loop = self._loop
         new._results = self._results.copy()
-        new._waiter = None
+        new._waiters = []
         new._exception = self._exception
-        new._set_result_waiters = None
+        new._set_result_waiters = []
         
         return new
     
@@ -462,14 +456,13 @@ class AsyncQueue:
     if __debug__:
         def __del__(self):
             """
-            If the queue has ``_waiter`` set, silences it.
+            If the queue has ``_waiters``, silences them.
             
             Notes
             -----
             This function is only present, when `__debug__` is set as `True`.
             """
-            waiter = self._waiter
-            if waiter is not None:
+            for waiter in self._waiters:
                 waiter.silence()
 
 
@@ -488,66 +481,13 @@ class AsyncLifoQueue(AsyncQueue):
         The loop to what the queue is bound to.
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _set_result_waiters : `list` of ``Future``
+        Result setters waiting for the queue to have place. When woken up they check again whether it has.
+    _waiters : `list` of ``Future``
+        Result getters waiting for the queue to have a result. When woken up they check again whether it has.
     """
     __slots__ = ()
     
-    @copy_docs(AsyncQueue.__await__)
-    def __await__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        return (yield from waiter)
-    
-    @copy_docs(AsyncQueue.result_no_wait)
-    def get_result_no_wait(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is None:
-            raise IndexError('The queue is empty')
-        
-        raise exception
-    
-    
-    @property
-    def result_no_wait(self):
-        return self.get_result_no_wait
-    
-    
-    @copy_docs(AsyncQueue.__anext__)
-    async def __anext__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+    @copy_docs(AsyncQueue._pop_result)
+    def _pop_result(self):
+        return self._results.pop()
-- 
2.43.0


From 127d67c6c6adba185449d98a00c1443523cb5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 34/36] fix: a pooled connection the other side closed, or
 whose payload was aborted, is not reused

---
 scarletio/web_common/http_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index c4c5841..83b7e91 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -84,7 +84,11 @@ class HttpReadProtocol(ReadProtocolBase):
         if (self._exception is not None):
             return True
         
-        if (not self._at_eof) and (self._offset or self._chunks):
+        # The connection was closed by the other side.
+        if self._at_eof:
+            return True
+        
+        if self._offset or self._chunks:
             return True
         
         return False
-- 
2.43.0


From e4c256c18a4b64eb26ec689eb868d5b64650121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 35/36] fix: expired pooled connections without TLS are closed
 by the clean-up

---
 scarletio/http_client/protocol_basket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 2bf922c..8443939 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -108,6 +108,7 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             del available[index]
             
             transport = protocol.get_transport()
+            protocol.close()
             if self.connection_key.secure and (transport is not None):
                 transport.abort()
         
-- 
2.43.0


From 6add07653c957ec8f64d2929dc60ae92ec061c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:13 +0000
Subject: [PATCH 36/36] fix: a socket transport that lost its connection takes
 no more writes, and write_eof does not raise then

---
 scarletio/core/protocols_and_transports/transport_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index b372a4d..51981c1 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -347,6 +347,8 @@ class SocketTransportLayerBase(TransportLayerBase):
             If the connection was closed, then `exception` is given as `None`. This can happen at the case, when eof is
             received as well.
         """
+        self._connection_lost = True
+        
         try:
             protocol = self._protocol
             if (protocol is not None):
@@ -638,7 +640,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         
         self._at_eof = True
         
-        if not self._buffer:
+        if (not self._buffer) and (not self._connection_lost):
             self._socket.shutdown(SOCKET_SHUTDOWN_WR)
     
 
-- 
2.43.0

