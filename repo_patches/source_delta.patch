From 011d5ea6a920b1cf97085d1108fd436ad4337e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 01/34] fix: strict read of n raised although exactly n items
 were available

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..86d21df 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -406,7 +406,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From db59af1389c803a1a5e29f08e1cf6fd618eda299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 02/34] fix: BufferReader.read ignored the reader's peek
 default

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 86d21df..ca8973e 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -361,8 +361,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 8f7f19b253bef394fc960e531f60a83545fb6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 03/34] fix: iteration and blocking reads lost items appended
 just before the stop

---
 stream2py/buffer_reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index ca8973e..c3a7268 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -164,11 +162,14 @@ class BufferReader:
         This makes BufferReader compatible with Python's iterator protocol while
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
+        # Look at the stop flag before reading: an item appended between a read finding
+        # nothing and the stop would be lost otherwise
+        stopped = self.is_stopped
         # Call read with the args fixed by init
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and stopped:
             raise StopIteration
 
         return result
@@ -380,6 +381,7 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                stopped = self.is_stopped  # before reading, as in __next__
                 _read = self.read(
                     n,
                     peek=peek,
@@ -389,7 +391,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 1609cc1a5bd4383cca6d6f0bcdf5283cd473ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 04/34] fix: range of only new items deadlocked with a waiting
 writer, raised TypeError

---
 stream2py/buffer_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index c3a7268..39bb56f 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -261,12 +261,11 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
+                # do not take the reader lock again with self.read: it deadlocks with a
+                # writer waiting for this reader
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above: last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From 5a8b9b40ecf957160f8cb08c521a2c7423ae2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 05/34] fix: closing a reader raised AttributeError, closing it
 twice stopped other readers

---
 stream2py/buffer_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 39bb56f..1b449fd 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -80,7 +80,7 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
+    onclose: Callable = None
     onopen: Callable
 
     def __init__(
@@ -446,8 +446,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None  # closing again has no effect
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From 6f0df01ce3821e9004f78ec1f7a9c87f2918f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/34] fix: opening a reader did not reopen a closed
 StreamSource

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..9a4839a 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -103,6 +103,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
-- 
2.43.0


From 89ee424289cbb8a8ab84b700118d4d449c8a6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 07/34] fix: StreamSource.get_timestamp raised AttributeError

---
 stream2py/stream_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 9a4839a..3c602d7 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -14,8 +14,6 @@ from stream2py.stream_buffer import StreamBuffer
 DFLT_READ_SIZE = 1
 DFLT_MAX_LEN = 10000
 
-timestamp_seconds_to_unit_conversion: Union[int, float] = 1e6  # to microseconds
-
 
 def defaulted_values(source_dict, defaults):
     """Returns a the values of source_dict where None values are replaced with the
@@ -63,6 +61,8 @@ class StreamSource(Source, metaclass=ABCMeta):
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
 
+    timestamp_seconds_to_unit_conversion: Union[int, float] = 1e6  # to microseconds
+
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
 
-- 
2.43.0


From 4cb292526169b1558550c74ad04bacf13e7c8833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 08/34] fix: iterating over a StreamSource raised
 AttributeError when it read None

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 3c602d7..1bca328 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -60,6 +60,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     _reader_cls = BufferReader
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
+    is_stopped: bool = False  # True to end direct iteration when no more data is read
 
     timestamp_seconds_to_unit_conversion: Union[int, float] = 1e6  # to microseconds
 
-- 
2.43.0


From 82f9a0baf7d8ef2525d9bc04d79fb66962cd15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 09/34] fix: StreamBuffer counted as running after its source
 failed to open

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..e049749 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,7 +180,11 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
+            try:
+                self._open()
+            except BaseException:
+                self._stop_event.set()  # not running
+                raise
             self._read_to_buffer_thread.start()
 
     def stop(self):
-- 
2.43.0


From efa218b52c2a467fe20ac9b2e6dd9935ab66eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 10/34] fix: source was left open when starting failed after
 opening it

---
 stream2py/stream_buffer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e049749..f62fb10 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -288,15 +288,19 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
+        try:
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
+        except BaseException:
+            self.source_reader.close()
+            raise
 
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
-- 
2.43.0


From f2b264650feff3fd2d6a4cd7a696448619af8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/34] fix: restart reopened the source while the previous
 read thread was still using it

---
 stream2py/stream_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index f62fb10..a67f236 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -179,6 +179,10 @@ class StreamBuffer:
         with self.start_lock:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
+            previous_thread = self._read_to_buffer_thread
+            if previous_thread is not None and previous_thread.is_alive():
+                # still in a read or sleep longer than stop waits: let it close the source
+                previous_thread.join()
             self._set_read_to_buffer_thread_and_source_buffer()
             try:
                 self._open()
-- 
2.43.0


From 6bd7000dce225a89b83eccc845165bbe1525cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 12/34] fix: next(stream_buffer) kept using the reader of an
 earlier session

---
 stream2py/stream_buffer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index a67f236..f58e866 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -158,9 +158,10 @@ class StreamBuffer:
         yield from iter(reader)
 
     def __next__(self):
-        if self._next_reader is None:
-            self._next_reader = self.mk_reader()
-        return next(self._next_reader)
+        reader = self._next_reader
+        if reader is None or reader._stop_event is not self._stop_event:
+            reader = self._next_reader = self.mk_reader()  # reader of current session
+        return next(reader)
 
     def drop(self, n=1):
         """Manually drop items from buffer when auto_drop is False
-- 
2.43.0


From 60115a7de831645ccf9fef5a5c5df0e0c464f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 13/34] fix: reading an unbounded buffer without auto_drop
 raised TypeError

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index f58e866..e4e48ef 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -262,7 +262,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From f6bd6269d4ae57a228179c34433d43b5f1d8e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 14/34] fix: attached reader kept the source info of its former
 session

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e4e48ef..d9d0dbd 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -76,6 +76,7 @@ class _SourceBuffer:
     def attach_reader(self, reader):
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
+        reader._source_reader_info = self._source_reader_info
 
 
 class StreamBuffer:
-- 
2.43.0


From 75fdb7705d20b4ad4a4568e0e22a54fbd4c13e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 15/34] fix: assigning the key of a SortedDeque lost its maxlen

---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From 4159f405eec168a8a4d77260a0278eb567d2af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 16/34] fix: mk_stream_buffer stored enumerated None items when
 there was no data

---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..17394f0 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:  # no data yet
+                return None
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From 98d8a5895ea51b0a8e9e48fba9b9e9e23c680ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 17/34] fix: ContextualizeCall accepted exit functions that
 cannot take exception info

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..600067a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From acc426828d91fb717983d7682efb6eed3013a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 18/34] fix: HTTPResponseReader ignored the configured method
 and body

---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..f7ecbcb 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From 01c202f77420b2f2a24288782016ca9ac503bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 19/34] fix: HTTPResponseReader read endless empty items at the
 end, never counted bytes

---
 stream2py/sources/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index f7ecbcb..e0b4faf 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -108,10 +108,13 @@ class HTTPResponseReader(SourceReader):
             self._response = None
 
     def read(self):
-        """Returns a chunk of raw binary data.
+        """Returns a (timestamp, chunk of raw binary data) pair, None at the end of the body.
         """
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
+        if not result:
+            return None
+        self._n_bytes_read += len(result)
         timestamp = time.time()
         if encoding:
             result = result.decode(encoding)
-- 
2.43.0


From 046909427ed9166fa9ab65a2d1dbeb26c2556838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 20/34] fix: sorting compared items of equal keys, so copying
 or re-keying reordered them or failed

---
 stream2py/utility/sorted_collection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..5297303 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -77,9 +77,12 @@ class SortedCollection(object):
     """
 
     def __init__(self, iterable=(), key=None):
-        self._given_key = key
+        given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        decorated = sorted(
+            ((key(item), item) for item in iterable), key=lambda pair: pair[0]
+        )
+        self._given_key = given_key
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From 6c46af335e99398e6b65cd3375e66220586bf7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 21/34] fix: refused maxlen assignment left a SortedDeque
 without its bound

---
 stream2py/utility/sorted_deque.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index e454d70..b5c3208 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -19,6 +19,7 @@ class SortedDeque(SortedCollection):
     """
 
     def __init__(self, iterable=(), key=None, maxlen=None):
+        deque(maxlen=maxlen)  # refuse an invalid maxlen before changing anything
         SortedCollection.__init__(self, iterable, key)
         self._keys = deque(self._keys, maxlen=maxlen)
         self._items = deque(self._items, maxlen=maxlen)
-- 
2.43.0


From 2b57ad9d60a2ee493131f7e6f977b8f231d1eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 22/34] fix: keyless sorted collections could not be pickled
 after clear, copy or re-bounding

---
 stream2py/utility/sorted_collection.py | 4 ++--
 stream2py/utility/sorted_deque.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 5297303..e2468cd 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -100,10 +100,10 @@ class SortedCollection(object):
     key = property(_getkey, _setkey, _delkey, 'key function')
 
     def clear(self):
-        self.__init__([], self._key)
+        self.__init__([], self._given_key)
 
     def copy(self):
-        return self.__class__(self, self._key)
+        return self.__class__(self, self._given_key)
 
     def __len__(self):
         return len(self._items)
diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index b5c3208..ba6518d 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -42,7 +42,7 @@ class SortedDeque(SortedCollection):
 
     def _setmaxlen(self, maxlen):
         if maxlen is not self._maxlen:
-            self.__init__(self._items, key=self._key, maxlen=maxlen)
+            self.__init__(self._items, key=self._given_key, maxlen=maxlen)
 
     def _delmaxlen(self):
         self._setmaxlen(None)
@@ -58,10 +58,10 @@ class SortedDeque(SortedCollection):
     )
 
     def clear(self):
-        self.__init__([], self._key, self._maxlen)
+        self.__init__([], self._given_key, self._maxlen)
 
     def copy(self):
-        return self.__class__(self, self._key, self._maxlen)
+        return self.__class__(self, self._given_key, self._maxlen)
 
     def __repr__(self):
         return '%s(%r, key=%s, maxlen=%s)' % (
-- 
2.43.0


From 9ac8381f37ec3c211baf79e54d0f9fa95026782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 23/34] fix: next(stream_buffer) started over with the oldest
 item after a stop

---
 stream2py/stream_buffer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index d9d0dbd..c6f489a 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -197,7 +197,6 @@ class StreamBuffer:
         """Stop reading and close source_reader"""
         self._stop_event.set()
         time.sleep(1)
-        self._next_reader = None
 
     def mk_reader(self, **read_kwargs) -> BufferReader:
         """ Makes a BufferReader instance for the currently running  StreamBuffer.
-- 
2.43.0


From 1b8a784b4b92c2634f578eea17201d9506a1fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 24/34] fix: source_reader_info of a stream buffer was None
 while nothing was buffered

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index c6f489a..362ef12 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -232,7 +232,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:  # it is falsy while empty
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From b1106578754270aadcac0a5f4de2b0054cfd5651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 25/34] fix: ContextualizeCall used copies of the attributes of
 what it wraps, replacing its own

---
 stream2py/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 600067a..17e2566 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -129,8 +129,9 @@ class ContextualizeCall:
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
+        # wrapping self with attributes of func (signature, name, etc.), other attributes
+        # are delegated: copies of them would replace those of self and go out of date
+        wraps(func, updated=())(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 53bfff71d362ce016e45fcdbccd3d21d15e2bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 26/34] fix: HTTPResponseReader failed on characters split
 between chunks

---
 stream2py/sources/http.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index e0b4faf..7c3868e 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -9,6 +9,7 @@ HTTP Response streaming reader with no external dependencies
 
 """
 
+import codecs
 import urllib.request
 from typing import Union, Optional
 import time
@@ -100,6 +101,9 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
+        encoding = self._init_kwargs.get('encoding')
+        # keeps the bytes of a character that is split between chunks
+        self._decoder = codecs.getincrementaldecoder(encoding)() if encoding else None
         self._response = urllib.request.urlopen(self._request)
 
     def close(self):
@@ -110,15 +114,18 @@ class HTTPResponseReader(SourceReader):
     def read(self):
         """Returns a (timestamp, chunk of raw binary data) pair, None at the end of the body.
         """
-        encoding = self._init_kwargs.get('encoding')
-        result = self._response.read(*self.response_read_args)
-        if not result:
-            return None
-        self._n_bytes_read += len(result)
-        timestamp = time.time()
-        if encoding:
-            result = result.decode(encoding)
-        return timestamp, result
+        while True:
+            result = self._response.read(*self.response_read_args)
+            if not result:
+                if self._decoder:
+                    self._decoder.decode(b'', final=True)
+                return None
+            self._n_bytes_read += len(result)
+            timestamp = time.time()
+            if self._decoder:
+                result = self._decoder.decode(result)
+            if result:
+                return timestamp, result
 
 
 def _test_run_HTTPResponseReader(url, **kwargs):
-- 
2.43.0


From 9fd4902638217e7bd7802e81d7ee8469c83cc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 27/34] fix: StreamSource ignored the reader class it was given

---
 stream2py/stream_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 1bca328..c01e562 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -66,6 +66,8 @@ class StreamSource(Source, metaclass=ABCMeta):
 
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
+        if reader_cls is not BufferReader:  # the default does not hide a subclass's choice
+            self.buffer_reader_class = reader_cls  # what StreamBuffer makes readers of
 
     def __iter__(self):
         while True:
-- 
2.43.0


From b9e6af372b1c8ac3097f52bc72a5ecf05d554ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 28/34] fix: read_configs of all sections iterated over the
 section names only

---
 pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 9b19fe3..86079a1 100644
--- a/pack.py
+++ b/pack.py
@@ -69,7 +69,7 @@ def read_configs(
     if section is None:
         d = dict(c)
         if postproc:
-            d = {k: dict(postproc(v)) for k, v in c}
+            d = {k: dict(postproc(v)) for k, v in c.items()}
     else:
         d = dict(c[section])
         if postproc:
-- 
2.43.0


From d24e0171a29bf72307e0dc823b31e6ce7f9d5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 29/34] fix: opening and closing readers of a stream source
 from several threads

Two threads opening the first reader each started the source, and a reader
opened while the last other one was being closed was handed out stopped.
---
 stream2py/stream_source.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index c01e562..69673dc 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -4,6 +4,7 @@ as next(), range(), head(), tail().  Each BufferReader instance has it's own cur
 what data was last seen."""
 
 from abc import ABCMeta, abstractmethod
+import threading
 import time
 from typing import Optional, Union
 
@@ -113,9 +114,19 @@ class StreamSource(Source, metaclass=ABCMeta):
         self._open_readers += 1
 
     def _handle_reader_closed(self):
-        self._open_readers -= 1
-        if self._open_readers <= 0:
-            self.exit()
+        with self._readers_lock:
+            self._open_readers -= 1
+            if self._open_readers <= 0:
+                self.exit()
+
+    @property
+    def _readers_lock(self):
+        """Held while the first reader starts the source and while the last one stops it.
+        Made when needed, as a subclass might not call __init__."""
+        lock = vars(self).get('_readers_rlock')
+        if lock is None:
+            lock = vars(self).setdefault('_readers_rlock', threading.RLock())
+        return lock
 
     def open_reader(self, read_size=1, strict_n=False, ignore_no_item_found=False):
         """Instantiates a reader.
@@ -126,15 +137,16 @@ class StreamSource(Source, metaclass=ABCMeta):
         :param ignore_no_item_found: if True, by default return None when no next item
             instead of raising exception during a read
         """
-        self._ensure_buffer()
-        new_reader = self._stream_buffer.mk_reader(
-            read_size=read_size,
-            strict_n=strict_n,
-            ignore_no_item_found=ignore_no_item_found,
-        )
-        self._handle_reader_open()
-        new_reader.open()
-        new_reader.onclose = self._handle_reader_closed
+        with self._readers_lock:
+            self._ensure_buffer()
+            new_reader = self._stream_buffer.mk_reader(
+                read_size=read_size,
+                strict_n=strict_n,
+                ignore_no_item_found=ignore_no_item_found,
+            )
+            self._handle_reader_open()
+            new_reader.open()
+            new_reader.onclose = self._handle_reader_closed
         return new_reader
 
     def set_sleep_time_on_iter_none(self, sleep_time_s: Union[int, float] = 0.1):
-- 
2.43.0


From 2ac4810236ac0e11c3bef93b6b77b73e9d51e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 30/34] fix: filling in values that refer to themselves raises
 instead of exhausting memory

format_str_vals_of_dict({'a': '{a}{a}'}) squared the value's size in each of
its loops before it could say that it can't be completed.
---
 pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack.py b/pack.py
index 86079a1..4d05658 100644
--- a/pack.py
+++ b/pack.py
@@ -284,6 +284,8 @@ def format_str_vals_of_dict(d, *, max_formatting_loops=10, **kwargs):
 
         if unformatted:
             for k in unformatted:
+                if k in partial_formatter.format_fields_set(d[k]):
+                    raise ValueError(f"I can't complete {k}: its value refers to itself")
                 d[k] = partial_formatter.format(d[k], **kwargs, **d)
         else:
             break
-- 
2.43.0


From b8090e577a1a2ae4e7cee4c89c225d57cb545010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 31/34] fix: asking a stream buffer for its source info while
 it restarts could raise AttributeError

---
 stream2py/stream_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 362ef12..9f1d295 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -232,8 +232,9 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer is not None:  # it is falsy while empty
-            return self.source_buffer.source_reader_info
+        source_buffer = self.source_buffer  # a start meanwhile takes it away
+        if source_buffer is not None:  # it is falsy while empty
+            return source_buffer.source_reader_info
         return None
 
     @property
-- 
2.43.0


From 3a1ff4417177712c662cd3ee6a7ac0665f348fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 32/34] fix: a package index in trouble counted as one that
 does not know the package

---
 pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 4d05658..c74a8c4 100644
--- a/pack.py
+++ b/pack.py
@@ -129,7 +129,9 @@ def current_pypi_version(
                 return sorted(releases, key=lambda r: tuple(map(int, r.split('.'))))[-1]
         else:
             raise ValueError(f'response code was {r.code}')
-    except HTTPError:
+    except HTTPError as e:
+        if e.code not in (404, 410):  # trouble with the index says nothing on the name
+            raise
         return None  # to indicate (hopefully) that name doesn't exist
     except Exception:
         raise
-- 
2.43.0


From 7c524804d40b9c713fcd39ee03333180b3e6e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:54 +0000
Subject: [PATCH 33/34] fix: a text that cannot be encoded emptied the
 configuration file

---
 pack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index c74a8c4..5d2b971 100644
--- a/pack.py
+++ b/pack.py
@@ -5,6 +5,8 @@ from urllib.error import HTTPError
 import re
 from typing import Union, Mapping, Iterable, Generator
 from configparser import ConfigParser
+from io import StringIO
+import locale
 import os
 
 DFLT_CONFIG_FILE = 'setup.cfg'
@@ -87,8 +89,12 @@ def write_configs(
     if os.path.isfile(config_file):
         c.read_file(open(config_file, 'r'))
     c[section] = dict(preproc(configs))
+    text = StringIO()
+    c.write(text)
+    # what cannot be written is refused here, before the file is emptied
+    text.getvalue().encode(locale.getpreferredencoding(False))
     with open(config_file, 'w') as fp:
-        c.write(fp)
+        fp.write(text.getvalue())
 
 
 dflt_formatter = Formatter()
-- 
2.43.0


From 4f764340ce2a0f45265fcc72e9a4c2eea2726cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:55 +0000
Subject: [PATCH 34/34] fix: named-only arguments counted as arguments of enter
 and exit functions

---
 stream2py/util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 17e2566..dd89080 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -30,7 +30,12 @@ def null_exit_func(obj, *exception_info):
 
 
 def _has_min_num_of_arguments(func, mininum_n_args):
-    return len(signature(func).parameters) >= mininum_n_args
+    # named only arguments are not given by what calls enter and exit functions
+    n_positional = sum(
+        x.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)
+        for x in signature(func).parameters.values()
+    )
+    return n_positional >= mininum_n_args
 
 
 def _callable_has_a_variadic_pos(func):
@@ -46,7 +51,9 @@ class EnterFunctionValidation(TypeValidationError):
 
     @staticmethod
     def is_valid(obj):
-        return callable(obj) and _has_min_num_of_arguments(obj, 1)
+        return callable(obj) and (
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 1)
+        )
 
 
 class ExitFunctionValidation(TypeValidationError):
-- 
2.43.0

