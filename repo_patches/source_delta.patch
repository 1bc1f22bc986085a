From a61cf73f41fb0ee239bd02645893698186b33aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 01/27] fix: readers lose a newline or stop early on \r\n pairs
 and at end of file

---
 vanillaplusjs/build/ioutil.py | 63 +++++++++++++----------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..48fea13 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -47,7 +47,7 @@ class PeekableTextIO:
             self.seen_eof = True
             res = self.buffer + (self.fp.read() or "")
             self.buffer = ""
-            return res
+            return res or None
 
         if len(self.buffer) >= n:
             res = self.buffer[:n]
@@ -55,7 +55,7 @@ class PeekableTextIO:
             return res
 
         new_data = self.fp.read(n - len(self.buffer))
-        if new_data is None:
+        if not new_data:
             self.seen_eof = True
             if not self.buffer:
                 return None
@@ -80,11 +80,16 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer or None
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
         new_data = self.fp.read(n - len(self.buffer))
-        if new_data is None:
+        if not new_data:
             self.seen_eof = True
             if not self.buffer:
                 return None
@@ -117,29 +122,8 @@ class PreprocessedTextIO:
             return None
         if len(res) == n and res[-1] == "\r":
             if self.fp.peek(1) == "\n":
-                res = res[:-1]
-
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
-        res = SURROGATE.sub("\uFFFD", res)
-        return res
-
-    def _peek(self, n: int = 1) -> Optional[str]:
-        """Returns without advancing the next n characters. If n is -1, then
-        returns all remaining characters.
-
-        If we're at EOF, returns None.
-
-        This may return fewer characters than requested even if there
-        are more characters available, due to substitutions.
-        """
-        res = self.fp.peek(n if n < 1 else n + 1)
-        if res is None:
-            return None
-        if n >= 1 and len(res) == n + 1:
-            if res[-2:] == "\r\n":
-                res = res[:-2]
-            else:
-                res = res[:-1]
+                # the pair is a single newline, so consume all of it
+                self.fp.read(1)
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -172,22 +156,21 @@ class PreprocessedTextIO:
 
         If we're at EOF, returns None.
         """
-        res = self._peek(n)
-        if res is None or n < 1 or len(res) == n:
-            return res
-
-        if len(res) == 0:
-            return None
-
-        attempted_peek_length = n
+        # We look at one character more than required, since how a trailing
+        # carriage return is substituted depends on what follows it
+        raw_length = n if n < 1 else n + 1
         while True:
-            old_actual_peek_length = len(res)
-            missing_characters = n - old_actual_peek_length
-            new_peek_length = attempted_peek_length + missing_characters
-            res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+            raw = self.fp.peek(raw_length)
+            if raw is None:
+                return None
+
+            res = CARRIAGE_RETURN_LIKE.sub("\n", raw)
+            res = SURROGATE.sub("\uFFFD", res)
+            if n < 1:
                 return res
-            attempted_peek_length = new_peek_length
+            if len(res) > n or len(raw) < raw_length:
+                return res[:n]
+            raw_length += n + 1 - len(res)
 
 
 def makedirs_safely(path: str) -> None:
-- 
2.43.0


From 3711f02140562573d1398e1c1dc00f781589485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 02/27] fix: dev watcher loses a deletion after a file was
 replaced by a rename

---
 vanillaplusjs/runners/dev.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..ee463b2 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -335,7 +335,7 @@ class DevEventHandler(FileSystemEventHandler):
             if event.src_path in self.deleted_files:
                 self.deleted_files.remove(event.src_path)
                 self.changed_files.add(event.src_path)
-            else:
+            elif event.src_path not in self.changed_files:
                 self.created_files.add(event.src_path)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
@@ -344,13 +344,12 @@ class DevEventHandler(FileSystemEventHandler):
         if event.is_directory:
             return
         with self.lock:
-            if event.src_path in self.changed_files:
-                self.changed_files.remove(event.src_path)
-                self.deleted_files.add(event.src_path)
-            elif event.src_path in self.created_files:
-                self.created_files.remove(event.src_path)
-            else:
-                self.deleted_files.add(event.src_path)
+            # A created file may have replaced a file from the last build (e.g.,
+            # an editor renaming a temporary file over it), so we always need
+            # to handle the deletion
+            self.changed_files.discard(event.src_path)
+            self.created_files.discard(event.src_path)
+            self.deleted_files.add(event.src_path)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
 
-- 
2.43.0


From 33613644506516002536e60096776b3ab896dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 03/27] fix: dev watcher stops, losing its pending changes,
 when a changed file is gone at rebuild

---
 vanillaplusjs/runners/dev.py | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index ee463b2..7f9bc10 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -244,33 +244,33 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
+        loop = asyncio.new_event_loop()
+        asyncio.set_event_loop(loop)
+        try:
+            changed_files = dict(
+                (os.path.relpath(file, self.folder), get_file_signature(file))
+                for file in changed
+            )
 
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
+            added_files = dict(
+                (os.path.relpath(file, self.folder), get_file_signature(file))
+                for file in created
+            )
 
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+            deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
 
-        if changed_files:
-            for file, signature in changed_files.items():
-                logger.debug(f"{file} changed: {signature}")
+            if changed_files:
+                for file, signature in changed_files.items():
+                    logger.debug(f"{file} changed: {signature}")
 
-        if added_files:
-            for file, signature in added_files.items():
-                logger.debug(f"{file} added: {signature}")
+            if added_files:
+                for file, signature in added_files.items():
+                    logger.debug(f"{file} added: {signature}")
 
-        if deleted_files:
-            for file in deleted_files:
-                logger.debug(f"{file} deleted")
+            if deleted_files:
+                for file in deleted_files:
+                    logger.debug(f"{file} deleted")
 
-        loop = asyncio.new_event_loop()
-        asyncio.set_event_loop(loop)
-        try:
             loop.run_until_complete(
                 hot_incremental_rebuild(
                     context,
-- 
2.43.0


From 75342a9fca606a847efbc9926b3631be3445768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/27] fix: dev watcher ignores changes that arrive during a
 failing build

---
 vanillaplusjs/runners/dev.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index 7f9bc10..490e7a0 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -295,6 +295,9 @@ class DevEventHandler(FileSystemEventHandler):
         except Exception:
             logger.exception("Error rebuilding")
             with self.lock:
+                changed_during_build = bool(
+                    self.deleted_files or self.changed_files or self.created_files
+                )
                 for file in changed:
                     if os.path.lexists(file):
                         if file not in self.created_files:
@@ -314,7 +317,7 @@ class DevEventHandler(FileSystemEventHandler):
                         if file in self.created_files:
                             self.created_files.remove(file)
                         self.deleted_files.add(file)
-                self.project_is_unbuildable = True
+                self.project_is_unbuildable = not changed_during_build
         finally:
             asyncio.set_event_loop(None)
             loop.close()
-- 
2.43.0


From 657cd7c78ff70e4910491f26b6782142f7c69db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 05/27] fix: identifier tables split characters above U+FFFF,
 accepting digits and letters they do not contain

---
 vanillaplusjs/build/js/derived_core_properties.py | 4 ++--
 vanillaplusjs/build/js/unicode_derived.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/js/derived_core_properties.py b/vanillaplusjs/build/js/derived_core_properties.py
index 34055bf..910fb93 100644
--- a/vanillaplusjs/build/js/derived_core_properties.py
+++ b/vanillaplusjs/build/js/derived_core_properties.py
@@ -1,5 +1,5 @@
 EXACT_MATCHES_ID_START = frozenset(
-    "\u00AA\u00B5\u00BA\u01BB\u0294\u02EC\u02EE\u0374\u037A\u037F\u0386\u038C\u0559\u0640\u06D5\u06FF\u0710\u07B1\u07FA\u081A\u0824\u0828\u08C9\u093D\u0950\u0971\u09B2\u09BD\u09CE\u09FC\u0A5E\u0ABD\u0AD0\u0AF9\u0B3D\u0B71\u0B83\u0B9C\u0BD0\u0C3D\u0C5D\u0C80\u0CBD\u0D3D\u0D4E\u0DBD\u0E46\u0E84\u0EA5\u0EBD\u0EC6\u0F00\u103F\u1061\u108E\u10C7\u10CD\u10FC\u1258\u12C0\u17D7\u17DC\u1843\u18AA\u1AA7\u1CFA\u1D78\u1F59\u1F5B\u1F5D\u1FBE\u2071\u207F\u2102\u2107\u2115\u2118\u2124\u2126\u2128\u212E\u2139\u214E\u2D27\u2D2D\u2D6F\u3005\u3006\u3007\u303B\u303C\u309F\u30FF\uA015\uA60C\uA66E\uA67F\uA770\uA788\uA78F\uA7D3\uA7F7\uA7FA\uA8FB\uA9CF\uA9E6\uAA70\uAA7A\uAAB1\uAAC0\uAAC2\uAADD\uAAF2\uAB69\uFB1D\uFB3E\uFF70\u10341\u1034A\u10808\u1083C\u10A00\u10F27\u11075\u11144\u11147\u11176\u111DA\u111DC\u11288\u1133D\u11350\u114C7\u11644\u116B8\u11909\u1193F\u11941\u119E1\u119E3\u11A00\u11A3A\u11A50\u11A9D\u11C40\u11D46\u11D98\u11FB0\u16F50\u16FE3\u1D4A2\u1D4BB\u1D546\u1DF0A\u1E14E\u1E94B\u1EE24\u1EE27\u1EE39\u1EE3B\u1EE42\u1EE47\u1EE49\u1EE4B\u1EE54\u1EE57\u1EE59\u1EE5B\u1EE5D\u1EE5F\u1EE64\u1EE7E"
+    "\u00AA\u00B5\u00BA\u01BB\u0294\u02EC\u02EE\u0374\u037A\u037F\u0386\u038C\u0559\u0640\u06D5\u06FF\u0710\u07B1\u07FA\u081A\u0824\u0828\u08C9\u093D\u0950\u0971\u09B2\u09BD\u09CE\u09FC\u0A5E\u0ABD\u0AD0\u0AF9\u0B3D\u0B71\u0B83\u0B9C\u0BD0\u0C3D\u0C5D\u0C80\u0CBD\u0D3D\u0D4E\u0DBD\u0E46\u0E84\u0EA5\u0EBD\u0EC6\u0F00\u103F\u1061\u108E\u10C7\u10CD\u10FC\u1258\u12C0\u17D7\u17DC\u1843\u18AA\u1AA7\u1CFA\u1D78\u1F59\u1F5B\u1F5D\u1FBE\u2071\u207F\u2102\u2107\u2115\u2118\u2124\u2126\u2128\u212E\u2139\u214E\u2D27\u2D2D\u2D6F\u3005\u3006\u3007\u303B\u303C\u309F\u30FF\uA015\uA60C\uA66E\uA67F\uA770\uA788\uA78F\uA7D3\uA7F7\uA7FA\uA8FB\uA9CF\uA9E6\uAA70\uAA7A\uAAB1\uAAC0\uAAC2\uAADD\uAAF2\uAB69\uFB1D\uFB3E\uFF70\U00010341\U0001034A\U00010808\U0001083C\U00010A00\U00010F27\U00011075\U00011144\U00011147\U00011176\U000111DA\U000111DC\U00011288\U0001133D\U00011350\U000114C7\U00011644\U000116B8\U00011909\U0001193F\U00011941\U000119E1\U000119E3\U00011A00\U00011A3A\U00011A50\U00011A9D\U00011C40\U00011D46\U00011D98\U00011FB0\U00016F50\U00016FE3\U0001D4A2\U0001D4BB\U0001D546\U0001DF0A\U0001E14E\U0001E94B\U0001EE24\U0001EE27\U0001EE39\U0001EE3B\U0001EE42\U0001EE47\U0001EE49\U0001EE4B\U0001EE54\U0001EE57\U0001EE59\U0001EE5B\U0001EE5D\U0001EE5F\U0001EE64\U0001EE7E"
 )
 
 MATCH_RANGES_ID_START = (
@@ -561,7 +561,7 @@ MATCH_RANGES_ID_START = (
 )
 
 EXACT_MATCHES_ID_CONTINUE = frozenset(
-    "\u005F\u00AA\u00B5\u00B7\u00BA\u01BB\u0294\u02EC\u02EE\u0374\u037A\u037F\u0386\u0387\u038C\u0559\u05BF\u05C7\u0640\u0670\u06D5\u06FF\u0710\u0711\u07B1\u07FA\u07FD\u081A\u0824\u0828\u08C9\u0903\u093A\u093B\u093C\u093D\u094D\u0950\u0971\u0981\u09B2\u09BC\u09BD\u09CD\u09CE\u09D7\u09FC\u09FE\u0A03\u0A3C\u0A51\u0A5E\u0A75\u0A83\u0ABC\u0ABD\u0AC9\u0ACD\u0AD0\u0AF9\u0B01\u0B3C\u0B3D\u0B3E\u0B3F\u0B40\u0B4D\u0B57\u0B71\u0B82\u0B83\u0B9C\u0BC0\u0BCD\u0BD0\u0BD7\u0C00\u0C04\u0C3C\u0C3D\u0C5D\u0C80\u0C81\u0CBC\u0CBD\u0CBE\u0CBF\u0CC6\u0D3D\u0D4D\u0D4E\u0D57\u0D81\u0DBD\u0DCA\u0DD6\u0E31\u0E46\u0E84\u0EA5\u0EB1\u0EBD\u0EC6\u0F00\u0F35\u0F37\u0F39\u0F7F\u0FC6\u1031\u1038\u103F\u1061\u1082\u108D\u108E\u108F\u109D\u10C7\u10CD\u10FC\u1258\u12C0\u1715\u1734\u17B6\u17C6\u17D7\u17DC\u17DD\u180F\u1843\u18A9\u18AA\u1932\u19DA\u1A1B\u1A55\u1A56\u1A57\u1A60\u1A61\u1A62\u1A7F\u1AA7\u1B04\u1B34\u1B35\u1B3B\u1B3C\u1B42\u1B82\u1BA1\u1BAA\u1BE6\u1BE7\u1BED\u1BEE\u1CE1\u1CED\u1CF4\u1CF7\u1CFA\u1D78\u1F59\u1F5B\u1F5D\u1FBE\u2054\u2071\u207F\u20E1\u2102\u2107\u2115\u2118\u2124\u2126\u2128\u212E\u2139\u214E\u2D27\u2D2D\u2D6F\u2D7F\u3005\u3006\u3007\u303B\u303C\u309F\u30FF\uA015\uA60C\uA66E\uA66F\uA67F\uA770\uA788\uA78F\uA7D3\uA7F7\uA7FA\uA802\uA806\uA80B\uA827\uA82C\uA8FB\uA8FF\uA983\uA9B3\uA9CF\uA9E5\uA9E6\uAA43\uAA4C\uAA4D\uAA70\uAA7A\uAA7B\uAA7C\uAA7D\uAAB0\uAAB1\uAAC0\uAAC1\uAAC2\uAADD\uAAEB\uAAF2\uAAF5\uAAF6\uAB69\uABE5\uABE8\uABEC\uABED\uFB1D\uFB1E\uFB3E\uFF3F\uFF70\u101FD\u102E0\u10341\u1034A\u10808\u1083C\u10A00\u10A3F\u10F27\u11000\u11001\u11002\u11070\u11075\u11082\u110C2\u1112C\u11144\u11147\u11173\u11176\u11182\u111CE\u111CF\u111DA\u111DC\u11234\u11235\u1123E\u11288\u112DF\u1133D\u11340\u11350\u11357\u11445\u11446\u1145E\u114B9\u114BA\u114C1\u114C7\u115BE\u1163D\u1163E\u11644\u116AB\u116AC\u116AD\u116B6\u116B7\u116B8\u11726\u11838\u11909\u1193D\u1193E\u1193F\u11940\u11941\u11942\u11943\u119E0\u119E1\u119E3\u119E4\u11A00\u11A39\u11A3A\u11A47\u11A50\u11A97\u11A9D\u11C2F\u11C3E\u11C3F\u11C40\u11CA9\u11CB1\u11CB4\u11D3A\u11D46\u11D47\u11D95\u11D96\u11D97\u11D98\u11FB0\u16F4F\u16F50\u16FE3\u16FE4\u1D4A2\u1D4BB\u1D546\u1DA75\u1DA84\u1DF0A\u1E14E\u1E2AE\u1E94B\u1EE24\u1EE27\u1EE39\u1EE3B\u1EE42\u1EE47\u1EE49\u1EE4B\u1EE54\u1EE57\u1EE59\u1EE5B\u1EE5D\u1EE5F\u1EE64\u1EE7E"
+    "\u005F\u00AA\u00B5\u00B7\u00BA\u01BB\u0294\u02EC\u02EE\u0374\u037A\u037F\u0386\u0387\u038C\u0559\u05BF\u05C7\u0640\u0670\u06D5\u06FF\u0710\u0711\u07B1\u07FA\u07FD\u081A\u0824\u0828\u08C9\u0903\u093A\u093B\u093C\u093D\u094D\u0950\u0971\u0981\u09B2\u09BC\u09BD\u09CD\u09CE\u09D7\u09FC\u09FE\u0A03\u0A3C\u0A51\u0A5E\u0A75\u0A83\u0ABC\u0ABD\u0AC9\u0ACD\u0AD0\u0AF9\u0B01\u0B3C\u0B3D\u0B3E\u0B3F\u0B40\u0B4D\u0B57\u0B71\u0B82\u0B83\u0B9C\u0BC0\u0BCD\u0BD0\u0BD7\u0C00\u0C04\u0C3C\u0C3D\u0C5D\u0C80\u0C81\u0CBC\u0CBD\u0CBE\u0CBF\u0CC6\u0D3D\u0D4D\u0D4E\u0D57\u0D81\u0DBD\u0DCA\u0DD6\u0E31\u0E46\u0E84\u0EA5\u0EB1\u0EBD\u0EC6\u0F00\u0F35\u0F37\u0F39\u0F7F\u0FC6\u1031\u1038\u103F\u1061\u1082\u108D\u108E\u108F\u109D\u10C7\u10CD\u10FC\u1258\u12C0\u1715\u1734\u17B6\u17C6\u17D7\u17DC\u17DD\u180F\u1843\u18A9\u18AA\u1932\u19DA\u1A1B\u1A55\u1A56\u1A57\u1A60\u1A61\u1A62\u1A7F\u1AA7\u1B04\u1B34\u1B35\u1B3B\u1B3C\u1B42\u1B82\u1BA1\u1BAA\u1BE6\u1BE7\u1BED\u1BEE\u1CE1\u1CED\u1CF4\u1CF7\u1CFA\u1D78\u1F59\u1F5B\u1F5D\u1FBE\u2054\u2071\u207F\u20E1\u2102\u2107\u2115\u2118\u2124\u2126\u2128\u212E\u2139\u214E\u2D27\u2D2D\u2D6F\u2D7F\u3005\u3006\u3007\u303B\u303C\u309F\u30FF\uA015\uA60C\uA66E\uA66F\uA67F\uA770\uA788\uA78F\uA7D3\uA7F7\uA7FA\uA802\uA806\uA80B\uA827\uA82C\uA8FB\uA8FF\uA983\uA9B3\uA9CF\uA9E5\uA9E6\uAA43\uAA4C\uAA4D\uAA70\uAA7A\uAA7B\uAA7C\uAA7D\uAAB0\uAAB1\uAAC0\uAAC1\uAAC2\uAADD\uAAEB\uAAF2\uAAF5\uAAF6\uAB69\uABE5\uABE8\uABEC\uABED\uFB1D\uFB1E\uFB3E\uFF3F\uFF70\U000101FD\U000102E0\U00010341\U0001034A\U00010808\U0001083C\U00010A00\U00010A3F\U00010F27\U00011000\U00011001\U00011002\U00011070\U00011075\U00011082\U000110C2\U0001112C\U00011144\U00011147\U00011173\U00011176\U00011182\U000111CE\U000111CF\U000111DA\U000111DC\U00011234\U00011235\U0001123E\U00011288\U000112DF\U0001133D\U00011340\U00011350\U00011357\U00011445\U00011446\U0001145E\U000114B9\U000114BA\U000114C1\U000114C7\U000115BE\U0001163D\U0001163E\U00011644\U000116AB\U000116AC\U000116AD\U000116B6\U000116B7\U000116B8\U00011726\U00011838\U00011909\U0001193D\U0001193E\U0001193F\U00011940\U00011941\U00011942\U00011943\U000119E0\U000119E1\U000119E3\U000119E4\U00011A00\U00011A39\U00011A3A\U00011A47\U00011A50\U00011A97\U00011A9D\U00011C2F\U00011C3E\U00011C3F\U00011C40\U00011CA9\U00011CB1\U00011CB4\U00011D3A\U00011D46\U00011D47\U00011D95\U00011D96\U00011D97\U00011D98\U00011FB0\U00016F4F\U00016F50\U00016FE3\U00016FE4\U0001D4A2\U0001D4BB\U0001D546\U0001DA75\U0001DA84\U0001DF0A\U0001E14E\U0001E2AE\U0001E94B\U0001EE24\U0001EE27\U0001EE39\U0001EE3B\U0001EE42\U0001EE47\U0001EE49\U0001EE4B\U0001EE54\U0001EE57\U0001EE59\U0001EE5B\U0001EE5D\U0001EE5F\U0001EE64\U0001EE7E"
 )
 
 MATCH_RANGES_ID_CONTINUE = (
diff --git a/vanillaplusjs/build/js/unicode_derived.py b/vanillaplusjs/build/js/unicode_derived.py
index a9ab0b4..9b297e4 100644
--- a/vanillaplusjs/build/js/unicode_derived.py
+++ b/vanillaplusjs/build/js/unicode_derived.py
@@ -46,8 +46,8 @@ def postprocess(
         relevant_part = line.split(";", maxsplit=1)[0].strip()
 
         if ".." not in relevant_part:
-            out_fp.write("\\u")
-            out_fp.write(relevant_part)
+            out_fp.write("\\U")
+            out_fp.write(relevant_part.rjust(8, "0"))
 
     derived_core_properties_fp.seek(start_of_data)
     out_fp.write(f"'\n)\n\nMATCH_RANGES_{property.upper()} = (\n   ")
-- 
2.43.0


From e261ad3c58c742c467da1646c340d4cd573144ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 06/27] fix: javascript identifiers that start with $ or _ are
 split, so $import counts as an import

---
 vanillaplusjs/build/js/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..3d9549e 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -168,7 +168,7 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
         if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        elif not res and (peeked in "$_" or is_id_start(peeked)):
             res += peekable.read(1)
         elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
             res += peekable.read(1)
-- 
2.43.0


From fa46b66a2f7047958e1c6d904ae9342fedb781d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 07/27] fix: \u{...} escapes of six digits or at the end of a
 file lose their backslash

---
 vanillaplusjs/build/js/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 3d9549e..318b93d 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -331,7 +331,7 @@ def _is_unicode_escape_sequence(nine: str) -> bool:
         return False
 
     if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
+        for i in range(2, len(nine)):
             if nine[i] == "}":
                 if i == 2:
                     return False
-- 
2.43.0


From eac99ece622357250199f1fc8e5d3f985c9e78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 08/27] fix: javascript string literals lose \x escapes, line
 continuations and, when unterminated, their backslashes

---
 vanillaplusjs/build/js/tokenizer.py | 34 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 318b93d..e299a6d 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -230,24 +230,32 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     """
     quote = peekable.read(1)
     res = ""
+    raw = quote
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
-            return JSToken(type=JSTokenType.invalid, value=quote + res)
+        if not peeked or peeked == "\n":
+            return JSToken(type=JSTokenType.invalid, value=raw)
         if peeked == quote:
             peekable.read(1)
             return JSToken(type=JSTokenType.string_literal, value=res)
         if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
+            upcoming = peekable.peek(10)
+            if _is_unicode_escape_sequence(upcoming[1:]):
                 peekable.read(1)
                 res += _consume_unicode_escape_sequence(peekable)
+                length = upcoming.index("}") + 1 if upcoming[2] == "{" else 6
+                raw += upcoming[:length]
+            elif _is_hex_escape_sequence(upcoming[1:4]):
+                raw += peekable.read(4)
+                res += chr(int(raw[-2:], 16))
             else:
-                peekable.read(1)
+                raw += peekable.read(1)
                 peeked = peekable.peek(1)
                 if not peeked:
-                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
+                    return JSToken(type=JSTokenType.invalid, value=raw)
 
                 escaped = peekable.read(1)
+                raw += escaped
                 if escaped == "n":
                     res += "\n"
                 elif escaped == "r":
@@ -262,10 +270,11 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
                     res += "\v"
                 elif escaped == "0":
                     res += "\0"
-                else:
+                elif not _is_newline(escaped):
                     res += escaped
         else:
-            res += peekable.read(1)
+            res += peeked
+            raw += peekable.read(1)
 
 
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
@@ -320,6 +329,17 @@ def _is_newline(char: str) -> bool:
     return char in "\n\u2028\u2029"
 
 
+def _is_hex_escape_sequence(three: str) -> bool:
+    """Determines if the given characters are a hex escape sequence, without
+    its leading slash, e.g., 'x41'
+    """
+    return (
+        len(three) == 3
+        and three[0] == "x"
+        and all(c in string.hexdigits for c in three[1:])
+    )
+
+
 def _is_unicode_escape_sequence(nine: str) -> bool:
     """Determines if the given nine characters could be consumed, perhaps partially,
     to get a valid unicode escape sequence.
-- 
2.43.0


From 7856a7e8d14b637950ed59d475f1a85e1fb9d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 09/27] fix: javascript strings and constants are written with
 css escapes, changing every non-ascii or control character

---
 vanillaplusjs/build/handlers/js_constants.py |  4 +--
 vanillaplusjs/build/js/serializer.py         | 38 ++++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..90b2876 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,7 +3,7 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -62,7 +62,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
 def jsify(val) -> str:
     if isinstance(val, str):
-        return serialize_string_auto_quote(val)
+        return serialize_string(val)
 
     if val is True:
         return "true"
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..695abd7 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -36,7 +35,7 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
     elif token["type"] == JSTokenType.identifier:
         return token["value"]
     elif token["type"] == JSTokenType.string_literal:
-        return serialize_string_auto_quote(token["value"])
+        return serialize_string(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
@@ -52,3 +51,38 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
+
+
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+}
+
+
+def serialize_string(string: str) -> str:
+    """Serializes the given string as a JS string literal, only using ascii
+    characters. Uses double quotes unless the string contains double quotes
+    and does not contain single quotes.
+    """
+    quote = '"' if '"' not in string or "'" in string else "'"
+    res = quote
+    for char in string:
+        char_ord = ord(char)
+        if char == quote:
+            res += "\\" + char
+        elif char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+        elif 0x20 <= char_ord < 0x7F:
+            res += char
+        elif char_ord <= 0xFF:
+            res += f"\\x{char_ord:02x}"
+        elif char_ord <= 0xFFFF:
+            res += f"\\u{char_ord:04x}"
+        else:
+            res += f"\\u{{{char_ord:x}}}"
+    return res + quote
-- 
2.43.0


From 000accc3b48476a70f07b397b0dd8defb6a0cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 10/27] fix: regular expressions with an escaped backslash or a
 bracket in a class do not end where they end

---
 vanillaplusjs/build/js/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index e299a6d..af2bad3 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -291,13 +291,13 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
         if group_level == 0 and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
+        if peeked == "\\" and not _is_newline(peekable.peek(2)[1:] or "\n"):
             res += peekable.read(2)
             continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
+        if peeked == "]":
+            group_level = 0
         if peeked == "[":
-            group_level += 1
+            group_level = 1
         res += peekable.read(1)
     flags = ""
     while True:
-- 
2.43.0


From 0fe780c65d4624b9303aadb450d963c42e32870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 11/27] fix: template literals are read as code, so quotes and
 // within them are rewritten

---
 vanillaplusjs/build/js/serializer.py |  2 +
 vanillaplusjs/build/js/token.py      |  4 ++
 vanillaplusjs/build/js/tokenizer.py  | 69 +++++++++++++++++++++++++++-
 3 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 695abd7..539e212 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -38,6 +38,8 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return serialize_string(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
+    elif token["type"] == JSTokenType.template:
+        return token["value"]
     elif token["type"] == JSTokenType.semicolon:
         return ";"
     elif token["type"] == JSTokenType.invalid:
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..0522a6e 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -45,6 +45,10 @@ class JSTokenType(str, Enum):
     """Value is the contents of the matched regular expression literal, e.g., for /\g/, the value is '\\g'
     The `extra` field contains the flags, if any. so for /foo/g, the value is 'foo' and the extra is 'g'
     """
+    template = "Template"
+    """Value is the source text of part of a template literal, i.e., up to and including
+    the start of the next substitution (${) or the end of the template literal
+    """
     invalid = "Invalid"
     """Value is the contents of the invalid token"""
     eof = "EOF"
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index af2bad3..9882a7e 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -33,6 +33,9 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     peekable = PreprocessedTextIO(PeekableTextIO(fp))
     del fp
 
+    in_template = []  # for each open curly bracket, if it's within a template
+    slash_divides = False  # if a slash would be a division rather than a regex
+
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
@@ -43,6 +46,7 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             continue
 
         if (identifier := _consume_identifier(peekable)) is not None:
+            slash_divides = identifier["value"] not in KEYWORDS_BEFORE_EXPRESSION
             yield identifier
             continue
 
@@ -51,13 +55,29 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield JSToken(type=JSTokenType.line_terminator, value=None)
             continue
 
+        if peeked == "`" or (peeked == "}" and in_template and in_template[-1]):
+            if peeked == "}":
+                in_template.pop()
+            template = _consume_template(peekable)
+            slash_divides = not template["value"].endswith("${")
+            if not slash_divides:
+                in_template.append(True)
+            yield template
+            continue
+
+        if peeked not in "/\"'":
+            slash_divides = peeked in ")]." or peeked.isdigit()
+
         if peeked == "{":
             peekable.read(1)
+            in_template.append(False)
             yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
             continue
 
         if peeked == "}":
             peekable.read(1)
+            if in_template:
+                in_template.pop()
             yield JSToken(type=JSTokenType.close_curly_bracket, value=None)
             continue
 
@@ -77,17 +97,23 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             continue
 
         if peeked == '"':
+            slash_divides = True
             yield _consume_string_literal(peekable)
             continue
 
         if peeked == "'":
+            slash_divides = True
             yield _consume_string_literal(peekable)
             continue
 
-        if peeked == "/":
+        if peeked == "/" and not slash_divides:
+            slash_divides = True
             yield _consume_regex(peekable)
             continue
 
+        if peeked == "/":
+            slash_divides = False
+
         yield JSToken(type=JSTokenType.invalid, value=peekable.read(1))
 
     yield JSToken(type=JSTokenType.eof, value=None)
@@ -184,6 +210,47 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     return JSToken(type=JSTokenType.identifier, value=res)
 
 
+KEYWORDS_BEFORE_EXPRESSION = frozenset(
+    (
+        "await",
+        "case",
+        "delete",
+        "do",
+        "else",
+        "in",
+        "instanceof",
+        "new",
+        "of",
+        "return",
+        "throw",
+        "typeof",
+        "void",
+        "yield",
+    )
+)
+
+
+def _consume_template(peekable: PeekableTextIO) -> JSToken:
+    """Consumes part of a template literal from the given peekable, assuming that
+    the current peeked character either starts the template literal or ends a
+    substitution within it. Ends after either the template literal or the start
+    of the next substitution.
+    """
+    res = peekable.read(1)
+    while True:
+        peeked = peekable.peek(2)
+        if not peeked:
+            return JSToken(type=JSTokenType.invalid, value=res)
+        if peeked == "${" or peeked[0] == "\\":
+            res += peekable.read(2)
+            if peeked == "${":
+                return JSToken(type=JSTokenType.template, value=res)
+            continue
+        res += peekable.read(1)
+        if peeked[0] == "`":
+            return JSToken(type=JSTokenType.template, value=res)
+
+
 def _consume_unicode_escape_sequence(peekable: PeekableTextIO) -> Optional[str]:
     """Consumes a unicode escape sequence from the given peekable, if one is present.
     This consumes something like 'u1234' or 'u{1234}', and does not expect to start
-- 
2.43.0


From e32cd36d8b9b2d7dbff76aa32788eb14098fe167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 12/27] fix: type hints are kept on lines that follow a blank
 line

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..c189def 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -35,6 +35,9 @@ class TypeHintsManipulator(JSYieldManipulator):
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
 
+        if token["type"] == JSTokenType.line_terminator:
+            return False
+
         should_exclude_line = False
         while token["type"] not in (JSTokenType.line_terminator, JSTokenType.eof):
             if (
-- 
2.43.0


From 691eaea887990b4a45db80d079ba2bf3db68bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 13/27] fix: canonical addresses given relative to their page

---
 .../build/html/manips/link_rel_canonical.py    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..0969fd4 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -5,7 +5,9 @@ from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
+import posixpath
 from dataclasses import dataclass
+from urllib.parse import quote
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
@@ -73,13 +75,13 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         tag = self.try_get_tag(node)
 
         href = node["data"].get((None, tag.attr))
-        new_href = None
-        if href is None:
-            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
-        else:
-            new_href = f"https://{host}{href}"
+        path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
+        path = quote("/" + path_relative_to_public.replace(os.path.sep, "/"))
+        if href == "":
+            path = ""
+        elif href is not None:
+            path = posixpath.join(posixpath.dirname(path), href)
+        new_href = f"https://{host}{path}"
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
@@ -93,7 +95,7 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        if href is not None and href.startswith(("http://", "https://")):
             return None
 
         tag.other_tags = dict(
-- 
2.43.0


From 5ff0f303c17a32fc6b6999645f587466578d8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 14/27] fix: only files within src/public are published

---
 vanillaplusjs/build/handlers/copy.py       | 4 ++--
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..f79afd4 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public", "")) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
-- 
2.43.0


From f66f68572b6f7ba6ab191c789096e23630166311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 15/27] fix: scripts and stylesheets outside src/public no
 longer stop the build

---
 vanillaplusjs/build/handlers/css.py | 6 ++++++
 vanillaplusjs/build/handlers/js.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..817016a 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..3e810e1 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +65,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
-- 
2.43.0


From 81f61b174a7ee7715dcc2a581091d79299fbdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 16/27] fix: null, lists, objects and infinite numbers as JS
 constants

---
 vanillaplusjs/build/handlers/js_constants.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index 90b2876..dc3b25a 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -8,6 +8,7 @@ import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import json
 import os
 
 
@@ -64,13 +65,4 @@ def jsify(val) -> str:
     if isinstance(val, str):
         return serialize_string(val)
 
-    if val is True:
-        return "true"
-
-    if val is False:
-        return "false"
-
-    if isinstance(val, (int, float)):
-        return str(val)
-
-    return repr(val)
+    return json.dumps(val)
-- 
2.43.0


From 0004f529cfa879680b6d80d187547a61ea83adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 17/27] fix: files are scanned again when a template they
 include changes

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..5d0b165 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -125,7 +125,23 @@ async def hot_incremental_rebuild(
         return
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
+        # A file whose dependencies changed can have other dependencies and
+        # outputs than before without having changed itself (e.g., when it
+        # includes a template which changed), so those are scanned again too
         files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        affected_files: Set[str] = set(files_that_need_scanning)
+        affected_files.update(deleted_files)
+        affected_stack: List[str] = list(affected_files)
+        while affected_stack:
+            file = affected_stack.pop()
+            for graph in (old_dependency_graph, old_placeholders_graph):
+                if file not in graph:
+                    continue
+                for par in graph.get_parents(file):
+                    if par not in affected_files:
+                        affected_files.add(par)
+                        affected_stack.append(par)
+                        files_that_need_scanning.append(par)
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
-- 
2.43.0


From 57d754b7c93ec259c9638e7dbad756ce8b76ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 18/27] fix: constants are rebuilt after a build in another
 mode failed

---
 .../build/hot_incremental_rebuild.py          | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 5d0b165..c5ed135 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -87,6 +87,7 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    new_constants_mode: Optional[Literal["dev", "prod"]] = None
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
@@ -109,11 +110,13 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
 
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
+            # The new mode is stored once the build has succeeded; until then
+            # the constants match neither mode
+            new_constants_mode = current_mode
+            try:
+                os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
+            except FileNotFoundError:
+                pass
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -623,6 +626,12 @@ async def hot_incremental_rebuild(
         with open(context.placeholder_graph_file, "w") as fp:
             new_placeholder_graph.store(fp)
 
+        if new_constants_mode is not None:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as fp:
+                fp.write(new_constants_mode)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
-- 
2.43.0


From ee8aec2f129550c13051e7566a60cce57d41d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 19/27] fix: no generated source is left behind when an inline
 script or style fails

---
 vanillaplusjs/build/html/manips/outline.py | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..1f8acd0 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -122,17 +122,22 @@ class OutlineManipulator(HTMLManipulator):
             handler = (
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
-            if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
-                self.dependencies.update(scan_result.dependencies)
-                self.produces.update(scan_result.produces)
-            else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
-                self.children.update(build_result.children)
-                self.produced.update(build_result.produced)
-                self.reused.update(build_result.reused)
-
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
+            try:
+                if self.mode == "scan":
+                    scan_result = handler.scan_file(
+                        self.context, self.outlining_to_path
+                    )
+                    self.dependencies.update(scan_result.dependencies)
+                    self.produces.update(scan_result.produces)
+                else:
+                    build_result = handler.build_file(
+                        self.context, self.outlining_to_path
+                    )
+                    self.children.update(build_result.children)
+                    self.produced.update(build_result.produced)
+                    self.reused.update(build_result.reused)
+            finally:
+                os.remove(os.path.join(self.context.folder, self.outlining_to_path))
             possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
 
             while possibly_empty_folder.count(os.path.sep) > 2:
-- 
2.43.0


From 1e78540f3763c68047c8d16b348c01e5d000be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 20/27] fix: inline styles with attributes

---
 vanillaplusjs/build/html/manips/outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 1f8acd0..767a5b1 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -109,7 +109,7 @@ class OutlineManipulator(HTMLManipulator):
                     os.path.join(self.context.folder, self.outlining_to_path), "w"
                 )
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
-- 
2.43.0


From 7ead866612d676a55907f21a37541d33d58159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 21/27] fix: references to other hosts ("//host/path") are left
 alone

---
 vanillaplusjs/build/css/manips/version_urls.py | 2 +-
 vanillaplusjs/build/html/manips/link_hash.py   | 3 +++
 vanillaplusjs/build/js/manips/hash_imports.py  | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..af17d17 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -78,7 +78,7 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        if not url.startswith("/") or url.startswith("//"):
             return None
 
         if "?" in url:
diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..273466e 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -189,6 +189,9 @@ class LinkHash(HTMLManipulator):
         href = attributes.get((None, link_type.attr_name))
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
+        if href.startswith("//"):
+            # the rest names another host
+            return None
 
         return LinkDependency(
             name=node["name"],
diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..22ebef6 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -117,6 +117,8 @@ class HashImportsManipulator(JSYieldManipulator):
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
         if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
             return self._mark_import_bad("unexpected path format")
+        if import_path.startswith("//"):
+            return self._mark_import_bad("path on another host")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
 
-- 
2.43.0


From 48acd7bf21af456467a20a4069786e72c9597edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 22/27] fix: url() with a fragment no longer stops the build

---
 vanillaplusjs/build/css/manips/version_urls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index af17d17..99895f5 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -81,7 +81,7 @@ class VersionURLsManipulator(CSSManipulator):
         if not url.startswith("/") or url.startswith("//"):
             return None
 
-        if "?" in url:
+        if "?" in url or "#" in url:
             return None
 
         path_relative_to_public = url[1:].replace("/", os.path.sep)
-- 
2.43.0


From 1552fcfb5b4031a7866dab42c8cc6102b83e0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 23/27] fix: scripts keep their href attribute when their src
 is versioned

---
 vanillaplusjs/build/html/manips/link_hash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 273466e..a24e18c 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -198,7 +198,11 @@ class LinkHash(HTMLManipulator):
             attr_name=link_type.attr_name,
             path=href[1:],
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                (
+                    (key[1], val)
+                    for (key, val) in attributes.items()
+                    if key[1] != link_type.attr_name
+                )
             ),
         )
 
-- 
2.43.0


From ce09721d924792f097b4bf9cfbeb3532cb773a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 24/27] fix: a page with two inline scripts or styles stopped
 the build

---
 vanillaplusjs/build/html/manips/outline.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 767a5b1..a9644ad 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -78,10 +78,10 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
+                # the folder was removed after the last script, if it was empty
+                makedirs_safely(
+                    os.path.join(self.context.folder, self.script_src_folder)
+                )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
@@ -96,10 +96,7 @@ class OutlineManipulator(HTMLManipulator):
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
+                makedirs_safely(os.path.join(self.context.folder, self.style_src_folder))
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
-- 
2.43.0


From d117ddee87f15a970bb590f7938db666175914a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 25/27] fix: data blocks (JSON-LD, import maps) stay inline

---
 vanillaplusjs/build/html/manips/outline.py | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index a9644ad..5c1cb93 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -12,6 +12,25 @@ from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
+# Script elements with any other type hold data (e.g. JSON-LD or an import
+# map), which is only read when it is inline
+JAVASCRIPT_TYPES = frozenset(
+    (
+        "",
+        "module",
+        "text/javascript",
+        "application/javascript",
+        "text/ecmascript",
+        "application/ecmascript",
+        "application/x-javascript",
+        "application/x-ecmascript",
+        "text/x-javascript",
+        "text/x-ecmascript",
+        "text/jscript",
+        "text/livescript",
+    )
+)
+
 
 class OutlineManipulator(HTMLManipulator):
     """Upon encountering a script tag without a src or a style
@@ -210,6 +229,10 @@ class OutlineManipulator(HTMLManipulator):
             node["type"] == "StartTag"
             and node["name"] == "script"
             and (None, "src") not in node["data"]
+            and (
+                node["data"].get((None, "type"), "").strip().lower()
+                in JAVASCRIPT_TYPES
+            )
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-- 
2.43.0


From d3c80b0509d004dce3c70045d872e46f295dbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 26/27] fix: a relative template path is relative to the folder
 of the page

---
 vanillaplusjs/build/html/manips/template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..7ab60a9 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -212,8 +212,11 @@ class TemplateManipulator(HTMLManipulator):
             )
         else:
             command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+            command_path_rel_project_root = os.path.normpath(
+                os.path.join(
+                    os.path.dirname(self.current_frame.relpath),
+                    command_path_rel_current_relpath,
+                )
             )
 
         for var_key in list(variables.keys()):
-- 
2.43.0


From 7381fe790b94de93bb73fa86d6cb57d786ccd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 27/27] fix: a template variable with an empty name could not
 be retrieved

---
 vanillaplusjs/build/html/manips/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 7ab60a9..b95875b 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -95,7 +95,7 @@ class TemplateManipulator(HTMLManipulator):
         if cmd := self.try_get_stack_define(parsed_args):
             return self.handle_stack_define(*cmd)
 
-        if cmd := self.try_get_stack_retrieve(parsed_args):
+        if (cmd := self.try_get_stack_retrieve(parsed_args)) is not None:
             return self.handle_stack_retrieve(cmd)
 
         return []
-- 
2.43.0

