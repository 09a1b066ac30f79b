From 8a10cebd6b9c971713da5e897d67f979e0829b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 01/34] fix: cache.ignore_descendants = True had no effect on
 the wrapped cache

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..0a1ee2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From c14726e73ceb61d0e2c47625773f7db3c45f72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 02/34] fix: get_many() left nodes of missed keys in the build
 tree and exhausted one-shot iterables

---
 cache_dependencies/cache.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..9962e89 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,13 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
-        if not abort and not self.ignore_descendants:
-            current_cache_node = self.relation_manager.current()
-            for key in keys:
-                self.begin(key)
-                self.relation_manager.current(current_cache_node)
-
-        caches = self.cache.get_many(keys, version)
+        caches = self.cache.get_many(list(keys), version)
 
         cache_values, cache_dependencies = dict(), dict()
         for key, data in caches.items():
@@ -104,6 +98,8 @@ class CacheWrapper(object):  # Adapter
                 cache_values.pop(dependencies_reversed[dependency_error.dependency], None)
 
         for key in cache_values:  # Looping through filtered result
+            if not abort and not self.ignore_descendants:
+                self.relation_manager.get(key)  # Binds the hit to the current build. A miss does not start a build.
             self.finish(key, cache_dependencies[key], version=version)
         return cache_values
 
-- 
2.43.0


From c1bd877dd44b098092e6129ceb32e351b19cf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 03/34] fix: membership test of a tagged cache raised TypeError

---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 9962e89..b68b9ec 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -185,6 +185,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 0a1ee2f..4c14741 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -75,6 +75,9 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From cdd9f14dc1c259264d0c99672a38c97aecead0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 04/34] fix: two-part UpdateCacheMiddleware failed with
 AttributeError on 'tags'

---
 django_cache_dependencies/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..785cbc3 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -111,6 +111,8 @@ class UpdateCacheMiddleware(MiddlewareMixin):
     UpdateCacheMiddleware must be the first piece of middleware in MIDDLEWARE
     so that it'll get called last during the response phase.
     """
+    tags = None
+
     def __init__(self, get_response=None):
         self.cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
-- 
2.43.0


From ae8509b4fe80dbd52b1c603c1b6e7447fdd8c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 05/34] fix: cache_transaction_all() lost the decorated
 function and did not flush after an exception

---
 django_cache_dependencies/decorators.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..303312e 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, unicode_literals
 import collections
+from functools import wraps
 from django.utils.decorators import decorator_from_middleware_with_args
 
 from django_cache_dependencies import cache  # in real it used
@@ -46,21 +47,19 @@ def cache_transaction_all(f=None, cache=None):
     elif not cache:
         cache = globals()['cache']
 
-    def wrapper(*args, **kwargs):
-        cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
-
-    if f:
-        return wrapper
-
     def wrapper_outer(f):
+        @wraps(f)
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
+
+        return wrapper
+
+    if f:
+        return wrapper_outer(f)
 
     return wrapper_outer
 
-- 
2.43.0


From 2520acd13954564c24652353e3a3787c9ba0201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 06/34] fix: transaction.flush() from a foreign thread ended
 the owner's transactions

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From 6067507e0b864ac1b1a34e81bd7f7acf0a540028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 07/34] fix: validate_key() raised ValueError instead of
 warning about unportable characters

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index b68b9ec..873b446 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -317,7 +317,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From 69a9d1fbb9ccf5c5f2146d5d295fde799cc06d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 08/34] fix: forked child process shared session id with its
 parent

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..c746e78 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()
+    if getattr(_thread_local, 'pid', None) != pid:  # New thread or forked process.
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From aa4647e178d6ee5dc2520fb1528584b7cad4a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 09/34] fix: REPEATABLE READ transaction left own records valid
 after its end

---
 cache_dependencies/locks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..71a5b57 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -94,6 +94,9 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type version: int or None
         """
         dependency.release(self._cache(), transaction, self._delay, version)
+        # Drops the records saved by current (dirty, if it has been rolled back)
+        # or by concurrent (lock is expired or hidden) transactions.
+        dependency.invalidate(self._cache(), version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From b5eaeb5bf63f731b3907f7375102c0cea1f09cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 10/34] fix: tag acquired while its version is being created
 did not prevent saving of stale record

---
 cache_dependencies/dependencies.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..1c8b769 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -219,6 +219,11 @@ class TagsDependency(interfaces.IDependency):
             raise exceptions.TagsLocked(self, locked_tags)
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
+        if created_tag_versions:
+            # Concurrent transaction could acquire and invalidate tags before their versions have been created.
+            locked_tags = self._get_locked_tags(cache, transaction, version).get()
+            if locked_tags:
+                raise exceptions.TagsLocked(self, locked_tags)
         tag_versions.update(created_tag_versions)
         self.tag_versions = tag_versions
 
-- 
2.43.0


From 982daca750e94e05bcc211d503dab6b9e8672908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 11/34] fix: own acquired state of a tag hid the state released
 by concurrent transaction

---
 cache_dependencies/dependencies.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 1c8b769..15f7097 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -325,8 +325,11 @@ class TagsDependency(interfaces.IDependency):
             state = acquired_tag_states.get(tag)
             released_state = released_tag_states.get(tag)
             if released_state is not None:
-                if state is None or released_state.is_released(state):
-                    state = released_state
+                # The tag can be already acquired again, nevertheless the released state should be respected.
+                if released_state.is_locked(transaction):
+                    locked_tags.add(tag)
+                if state is not None and released_state.is_released(state):
+                    state = None
             if state is not None and state.is_locked(transaction):
                 locked_tags.add(tag)
         return locked_tags
-- 
2.43.0


From 9270e5f727829f0986c39b062f5d5607219526fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 12/34] fix: exception in callback of get_or_set_callback()
 left the build of the record open

---
 cache_dependencies/cache.py   | 6 +++++-
 cache_dependencies/tagging.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 873b446..d4638ee 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -45,7 +45,11 @@ class CacheWrapper(object):  # Adapter
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 4c14741..7b59d2c 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -28,7 +28,11 @@ class CacheTagging(object):  # Backward compatibility
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From 004a396a9dec5a40575bc9e02ba2f166a6827166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 13/34] fix: record did not inherit tags of descendants if only
 one of them had explicit default version

---
 cache_dependencies/cache.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index d4638ee..3371380 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -120,7 +120,9 @@ class CacheWrapper(object):  # Adapter
             dependency = dependencies.DummyDependency()
         combined_dependency_with_descendants = dependencies.CompositeDependency()
         combined_dependency_with_descendants.extend(dependency)
-        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))
+        combined_dependency_with_descendants.extend(
+            self.relation_manager.get(key).get_dependency(self._actual_version(version))
+        )
 
         try:
             self.transaction.current().evaluate(combined_dependency_with_descendants, version)
@@ -164,7 +166,11 @@ class CacheWrapper(object):  # Adapter
         :type dependency: cache_dependencies.interfaces.IDependency
         :type version: int or None
         """
-        self.relation_manager.pop(key).add_dependency(dependency, version)
+        self.relation_manager.pop(key).add_dependency(dependency, self._actual_version(version))
+
+    def _actual_version(self, version):
+        """Omitted version means the default version of the cache."""
+        return getattr(self.cache, 'version', None) if version is None else version
 
     def close(self):
         self.transaction.flush()
-- 
2.43.0


From 536d0d71260b80f4e459a81ec10aa621f64e7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 14/34] fix: record stored without timeout never expired
 instead of using the default timeout

---
 cache_dependencies/cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 3371380..4f6952e 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -131,7 +131,10 @@ class CacheWrapper(object):  # Adapter
         except exceptions.DependencyLocked:
             pass
         else:
-            return self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
+            data = self._pack_data(value, combined_dependency_with_descendants)
+            if timeout is None:  # Default timeout of the cache. For Django >= 1.7 None means "forever".
+                return self.cache.set(key, data, version=version)
+            return self.cache.set(key, data, timeout, version)
         finally:
             self.finish(key, dependency, version=version)
 
-- 
2.43.0


From faf972da38f70c408d9481434432cf2b1a4a0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 15/34] fix: get_or_set_callback() in native call style read
 another version than it stored

---
 cache_dependencies/tagging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 7b59d2c..36a8589 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -24,6 +24,8 @@ class CacheTagging(object):  # Backward compatibility
 
         Otherwise calls cache_funcs, sets cache value to it and returns it.
         """
+        if not isinstance(tags, (list, tuple, set, frozenset, interfaces.IDependency)):  # Called as native API
+            tags, timeout, version = (), tags, timeout if version is None else version
         value = self.get(key, version=version)
         if value is None:
             args = args or ()
-- 
2.43.0


From bece9276399b6293424e46a4a141ba01afbc61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 16/34] fix: secret of NoCache was used as a regular expression
 and as a format string

---
 cache_dependencies/nocache.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index c7d6ac4..4b75af8 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -31,20 +31,20 @@ class NoCache(object):
         self.tag_name = tag_name
         # nocache.nocache can be used for nested cache handling.
         # Similar like Django {% openblock %} for "{%".
-        self._start = '<{0} secret="{1}" data="{{0}}">'.format(
+        self._start = '<{0} secret="{1}" data="'.format(
             self.tag_name, self.secret
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
-            self._start.format('([^"]+)'),
-            self.tag_name,
-            self._end
+        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+            re.escape(self._start),
+            re.escape(self.tag_name),
+            re.escape(self._end)
         )
         self.nocache_re = re.compile(self.nocache_pattern, re.U|re.S)
 
     def start(self, **data):
-        return self._start.format(self.pickle(data))
+        return self._start + self.pickle(data) + '">'
 
     def end(self):
         return self._end
-- 
2.43.0


From 4272e776d9fbfcfb3f1f177e17d4549fa962e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 17/34] fix: FileBasedCache stored records which could never be
 read with Django >= 1.7

---
 django_cache_dependencies/backends.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..c7cb0d6 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,6 +1,6 @@
 import os
 import random
-import time
+import zlib
 import tempfile
 import threading
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
@@ -12,10 +12,7 @@ class FileBasedCache(DjangoFileBasedCache):
     _fs_transaction_suffix = '.__dj_cache'
 
     def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+        fname = self._key_to_file(key, version)
         dirname = os.path.dirname(fname)
 
         if timeout is None:
@@ -24,17 +21,20 @@ class FileBasedCache(DjangoFileBasedCache):
         if random.random() > 0.8:
             threading.Thread(target=self._cull).start()
 
+        tmp = None
         try:
-            if not os.path.exists(dirname):
-                os.makedirs(dirname)
-
+            self._createdir()
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
 
             with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                # The format should be readable by DjangoFileBasedCache.get()
+                pickle.dump(self.get_backend_timeout(timeout), f, pickle.HIGHEST_PROTOCOL)
+                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
             os.rename(tmp, fname)
+            tmp = None
         except (IOError, OSError):
             pass
+        finally:
+            if tmp is not None and os.path.exists(tmp):
+                os.remove(tmp)
-- 
2.43.0


From b1d1dd72d364d5c97592828bd4ab3a3f26dcf865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 18/34] fix: nested {% cache_tagging %} lost tags and
 prevention of its ancestor

---
 .../templatetags/cache_tagging_tags.py            | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..1b251df 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -23,6 +23,16 @@ register = Library()
 kwarg_re = re.compile(r"(?:(\w+)=)?(.+)")
 
 
+def set_cache_tagging_prevent(context):
+    """Sets the flag of the nearest {% cache_tagging %} from any scope of its body."""
+    for scope in reversed(context.dicts):
+        if 'cache_tagging_prevent' in scope:
+            scope['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
+
+
 class CacheAddTagsNode(Node):
     """Adds a new tags from body of {% cache_tagging %}."""
     def __init__(self, tags):
@@ -96,6 +106,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # Should not overwrite variables of ancestor
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
@@ -104,7 +115,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                set_cache_tagging_prevent(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -204,7 +215,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    set_cache_tagging_prevent(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From 242407acbded0e13145086e5c69180d889bb8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 19/34] fix: cached fragment with empty output was rendered
 again, outside of its build

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 1b251df..7e098d1 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -76,7 +76,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From d99fa43b003872cbd51f2571de0811fdf9be8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 20/34] fix: exception in body of {% cache_tagging %} left the
 build of the fragment open

---
 .../templatetags/cache_tagging_tags.py                      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 7e098d1..77b15ef 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -110,7 +110,11 @@ class CacheNode(Node):
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-            result = self.nodelist.render(sub_context)
+            try:
+                result = self.nodelist.render(sub_context)
+            except BaseException:
+                cache.abort(cache_name)
+                raise
             tags = sub_context['cache_tagging']
 
             # Prevent caching of ancestor
-- 
2.43.0


From 64ef1528f085ed2f763e8148149152d39e571292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 21/34] fix: variant of a page did not have tags of its
 descendants if list of headers was learned with it

---
 django_cache_dependencies/middleware.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 785cbc3..b61806d 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,8 +50,9 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age
+from django.utils.cache import _generate_cache_header_key, get_cache_key, get_max_age
 
+from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -174,13 +175,19 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
+            # The page could be built while the record with list of headers was building,
+            # but it should have tags of descendants itself, because of list of headers
+            # can be learned again by another variant of the page.
+            header_node = self.cache.relation_manager.get(_generate_cache_header_key(self.key_prefix, request))
+            dependency = CompositeDependency(TagsDependency(tags))
+            dependency.extend(header_node.get_dependency(self.cache.version))
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
+                    lambda r: self.cache.set(cache_key, r, dependency, timeout)  # patched
                 )
             else:
-                self.cache.set(cache_key, response, tags, timeout)  # patched
+                self.cache.set(cache_key, response, dependency, timeout)  # patched
         # patch end
         return response
 
-- 
2.43.0


From 845be121a52aa85dafcc7419ad811c280f09c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 22/34] fix: dependencies got the tagging wrapper instead of
 the wrapped cache on evaluation and release

---
 django_cache_dependencies/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..5d4d8dc 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -58,7 +58,7 @@ class CacheCollection(object):
                 cache = django.core.cache.get_cache(django_backend, *args, **kwargs)
 
             def thread_safe_cache_accessor():
-                return self(backend, *args, **kwargs).cache
+                return self(backend, *args, **kwargs).cache.cache  # Wrapped cache, without tagging
             tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
             transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
             relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
-- 
2.43.0


From 274373b1f78a79a8ca36a9bea1809d7f02551c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 23/34] fix: transaction started while REPEATABLE READ
 transaction was ending could inherit its dirty records

---
 cache_dependencies/interfaces.py  |  9 +++++++++
 cache_dependencies/locks.py       | 19 +++++++++++++++++++
 cache_dependencies/transaction.py |  2 ++
 3 files changed, 30 insertions(+)

diff --git a/cache_dependencies/interfaces.py b/cache_dependencies/interfaces.py
index 8d71d2e..d9eb7e7 100644
--- a/cache_dependencies/interfaces.py
+++ b/cache_dependencies/interfaces.py
@@ -157,6 +157,15 @@ class IRelationManager(object):
 
 class IDependencyLock(object):
 
+    def prepare(self, dependency, transaction, version):
+        """
+        Called before the transaction gets its end time.
+
+        :type dependency: cache_dependencies.interfaces.IDependency
+        :type transaction: cache_dependencies.interfaces.ITransaction
+        :type version: int or None
+        """
+
     def acquire(self, dependency, transaction, version):
         """
         :type dependency: cache_dependencies.interfaces.IDependency
diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index 71a5b57..bdcd80d 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -20,6 +20,15 @@ class DependencyLock(interfaces.IDependencyLock):
         """
         dependency.evaluate(self._cache(), transaction, version)
 
+    def prepare(self, dependency, transaction, version):
+        """
+        Called before the transaction gets its end time.
+
+        :type dependency: cache_dependencies.interfaces.IDependency
+        :type transaction: cache_dependencies.interfaces.ITransaction
+        :type version: int or None
+        """
+
     @staticmethod
     def make(isolation_level, thread_safe_cache_accessor, delay):
         """
@@ -87,6 +96,16 @@ class RepeatableReadDependencyLock(DependencyLock):
         """
         dependency.acquire(self._cache(), transaction, version)
 
+    def prepare(self, dependency, transaction, version):
+        """
+        :type dependency: cache_dependencies.interfaces.IDependency
+        :type transaction: cache_dependencies.interfaces.ITransaction
+        :type version: int or None
+        """
+        # Transaction started after the end time is not locked,
+        # so, it should not be able to read (and to inherit) the records saved by current transaction.
+        dependency.invalidate(self._cache(), version)
+
     def release(self, dependency, transaction, version):
         """
         :type dependency: cache_dependencies.interfaces.IDependency
diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 00bd054..6437a38 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -60,6 +60,8 @@ class Transaction(AbstractTransaction):
         self._lock.acquire(dependency, self, version)
 
     def finish(self):
+        for version, dependency in self._dependencies.items():
+            self._lock.prepare(dependency, self, version)
         self._end_time = self._current_time()
         for version, dependency in self._dependencies.items():
             self._lock.release(dependency, self, version)
-- 
2.43.0


From 65bfd85849ba8a92e0005ffc37447978d261cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 24/34] fix: function decorated by @cache.transaction could be
 called only in the thread where it was decorated

---
 cache_dependencies/transaction.py     | 20 ++++++++++++++++++++
 django_cache_dependencies/__init__.py |  4 +++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 6437a38..eafb58c 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -181,6 +181,26 @@ class TransactionManager(AbstractTransactionManager):
 
 class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, AbstractTransactionManager):
 
+    def __init__(self, delegate, thread_safe_accessor=None):
+        """
+        :type delegate: cache_dependencies.interfaces.ITransactionManager
+        :type thread_safe_accessor: () -> cache_dependencies.interfaces.ITransactionManager
+        """
+        super(ThreadSafeTransactionManagerDecorator, self).__init__(delegate)
+        self._thread_safe_accessor = thread_safe_accessor or (lambda: self)
+
+    def __call__(self, func=None):
+        if func is None:
+            return self
+
+        @wraps(func)
+        def _decorated(*args, **kw):
+            # Function can be called in another thread than it has been decorated, for example, a view.
+            with self._thread_safe_accessor():
+                return func(*args, **kw)
+
+        return _decorated
+
     def current(self, node=Undef):
         self._validate_thread_sharing()
         return self._delegate.current(node)
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 5d4d8dc..fcb475d 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -60,7 +60,9 @@ class CacheCollection(object):
             def thread_safe_cache_accessor():
                 return self(backend, *args, **kwargs).cache.cache  # Wrapped cache, without tagging
             tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
-            transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
+            transaction = ThreadSafeTransactionManagerDecorator(
+                TransactionManager(tags_lock), lambda: self(backend, *args, **kwargs).transaction
+            )
             relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
             self._caches[key] = CacheTagging(
                 cache, relation_manager, transaction
-- 
2.43.0


From f98bdd476863a0f16af088e165bea868895d7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 25/34] fix: TransactionMiddleware left the transaction open if
 an exception passed through it

---
 django_cache_dependencies/middleware.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index b61806d..e0717a6 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -89,6 +89,13 @@ class TransactionMiddleware(MiddlewareMixin):
             self.cache_alias = DEFAULT_CACHE_ALIAS
             # self.cache_alias = settings.CACHE_MIDDLEWARE_ALIAS
 
+    def __call__(self, request):
+        try:
+            return super(TransactionMiddleware, self).__call__(request)
+        except BaseException:
+            caches[self.cache_alias].transaction.flush()
+            raise
+
     def process_request(self, request):
         """Enters transaction management"""
         caches[self.cache_alias].transaction.begin()
-- 
2.43.0


From 9442f9c11393e149588dd72d75c1871106e9b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 26/34] fix: build which had been begun earlier and forgotten
 did not pass its tags to the build it was used in

---
 cache_dependencies/relations.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..1682080 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -23,6 +23,12 @@ class CacheNode(interfaces.ICacheNode):
     def parent(self):
         return self._parent
 
+    def move(self, parent):
+        """
+        :type parent: cache_dependencies.interfaces.ICacheNode
+        """
+        self._parent = parent
+
     def key(self):
         return self._key
 
@@ -79,6 +85,7 @@ class RelationManager(interfaces.IRelationManager):
             return self._current
         if isinstance(key_or_node, string_types):
             node = self.get(key_or_node)
+            self._unlink(node)  # The build could be begun earlier and forgotten. Now it belongs to the current one.
         else:
             node = key_or_node
         self._current = node
@@ -87,16 +94,29 @@ class RelationManager(interfaces.IRelationManager):
         try:
             node = self._data.pop(key)
         except KeyError:
-            node = DummyCacheNode()
-
-        if self.current() is node:
-            self.current(node.parent())
+            return DummyCacheNode()
+        self._unlink(node)
         return node
 
     def clear(self):
         self._current = DummyCacheNode()
         self._data = dict()
 
+    def _unlink(self, node):
+        """Takes the node out of the chain of open builds and puts it on the top of the rest of the chain.
+
+        :type node: cache_dependencies.relations.CacheNode
+        """
+        if self._current is node:
+            self._current = node.parent()
+            return
+        child = self._current
+        while isinstance(child, CacheNode) and child.parent() is not node:
+            child = child.parent()
+        if isinstance(child, CacheNode):  # Build of the child has been begun inside of the node, but is not finished yet.
+            child.move(node.parent())
+        node.move(self._current)
+
 
 class ThreadSafeRelationManagerDecorator(mixins.ThreadSafeDecoratorMixIn, interfaces.IRelationManager):
     def get(self, key):
-- 
2.43.0


From 55b89679db8eec3a2a35114f88ddcd9ac3757e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 27/34] fix: page did not have tags of its descendants if its
 response changed the list of headers

---
 django_cache_dependencies/middleware.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index e0717a6..9caf69c 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -185,9 +185,13 @@ class UpdateCacheMiddleware(MiddlewareMixin):
             # The page could be built while the record with list of headers was building,
             # but it should have tags of descendants itself, because of list of headers
             # can be learned again by another variant of the page.
-            header_node = self.cache.relation_manager.get(_generate_cache_header_key(self.key_prefix, request))
+            # The same if the response has changed the list of headers, and therefore the key of the page.
+            build_key = getattr(request, '_cache_build_keys', {}).get(
+                (self.cache_alias, self.key_prefix), _generate_cache_header_key(self.key_prefix, request)
+            )
+            build_node = self.cache.relation_manager.get(build_key)
             dependency = CompositeDependency(TagsDependency(tags))
-            dependency.extend(header_node.get_dependency(self.cache.version))
+            dependency.extend(build_node.get_dependency(self.cache.version))
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
@@ -241,6 +245,11 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
             response = self.cache.get(cache_key)
 
         if response is None:
+            # patch start
+            if not hasattr(request, '_cache_build_keys'):
+                request._cache_build_keys = {}
+            request._cache_build_keys[(self.cache_alias, self.key_prefix)] = cache_key
+            # patch end
             request._cache_update_cache = True
             return None  # No cache information available, need to rebuild.
 
-- 
2.43.0


From 0c3639c8834ffa2e752d6c0af6038e07805e087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 28/34] fix: empty uncached block was not executed and
 swallowed the text up to the next block

---
 cache_dependencies/nocache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index 4b75af8..8509ec3 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -36,7 +36,7 @@ class NoCache(object):
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+        self.nocache_pattern = r'{0}([^"]+)">(.*?)(?!<{1}){2}'.format(
             re.escape(self._start),
             re.escape(self.tag_name),
             re.escape(self._end)
-- 
2.43.0


From 39926f3fdd28113ec1bc84bd305a7064485f80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 29/34] fix: report a non-integer timeout of a template
 fragment as a template syntax error

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 77b15ef..affc961 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -91,7 +91,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From 735e7f1017ddb6262479958ab92d1a3ecc3184b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 30/34] fix: a template fragment whose arguments cannot be
 resolved leaves no build open

---
 .../templatetags/cache_tagging_tags.py              | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index affc961..493557d 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -74,6 +74,13 @@ class CacheNode(Node):
 
     def render(self, context):
         cache_name = self.fragment_name.resolve(context)
+        try:
+            return self.render_fragment(context, cache_name)
+        except BaseException:
+            cache.abort(cache_name)
+            raise
+
+    def render_fragment(self, context, cache_name):
         result = cache.get(cache_name)
 
         if result is None:
@@ -110,11 +117,7 @@ class CacheNode(Node):
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-            try:
-                result = self.nodelist.render(sub_context)
-            except BaseException:
-                cache.abort(cache_name)
-                raise
+            result = self.nodelist.render(sub_context)
             tags = sub_context['cache_tagging']
 
             # Prevent caching of ancestor
-- 
2.43.0


From bcb536235d5fff2b14961aef7b445f9f85564cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 31/34] fix: failure of one cache at the end of a request does
 not leave the builds and other caches open

---
 cache_dependencies/cache.py           |  6 ++++--
 django_cache_dependencies/__init__.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 4f6952e..fe9a7a4 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -176,8 +176,10 @@ class CacheWrapper(object):  # Adapter
         return getattr(self.cache, 'version', None) if version is None else version
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index fcb475d..644571e 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -174,8 +174,15 @@ def autodiscover():
         __import__("{0}.caches".format(app))
 
 
+def _close_all(opened):
+    if opened:
+        try:
+            opened[0].close()
+        finally:  # Failure of one cache should not leave the rest of them open for the next request.
+            _close_all(opened[1:])
+
+
 def close_caches(**kwargs):
-    for cache in caches.all():
-        cache.close()
+    _close_all(list(caches.all()))
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0


From bb35d18804f7e851f125e37ea446142116304b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 32/34] fix: a read with a key which is not a string broke
 build tracking of the thread

---
 cache_dependencies/relations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index 1682080..2a20621 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -83,11 +83,11 @@ class RelationManager(interfaces.IRelationManager):
     def current(self, key_or_node=Undef):
         if key_or_node is Undef:
             return self._current
-        if isinstance(key_or_node, string_types):
+        if isinstance(key_or_node, interfaces.ICacheNode):
+            node = key_or_node
+        else:
             node = self.get(key_or_node)
             self._unlink(node)  # The build could be begun earlier and forgotten. Now it belongs to the current one.
-        else:
-            node = key_or_node
         self._current = node
 
     def pop(self, key):
-- 
2.43.0


From 6ac0308400ac79fe425ac63e2cd2d7fbbe17d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 33/34] fix: a value recomputed over a cached None lost the
 dependencies of its descendants

---
 cache_dependencies/cache.py   | 2 ++
 cache_dependencies/tagging.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index fe9a7a4..f95a4f6 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -43,6 +43,8 @@ class CacheWrapper(object):  # Adapter
         """
         value = self.get(key, version=version)
         if value is None:
+            if not self.ignore_descendants:
+                self.begin(key)  # The stored None is a hit, and ends the build.
             args = args or []
             kwargs = kwargs or {}
             try:
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 36a8589..e114457 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -28,6 +28,8 @@ class CacheTagging(object):  # Backward compatibility
             tags, timeout, version = (), tags, timeout if version is None else version
         value = self.get(key, version=version)
         if value is None:
+            if not self.ignore_descendants:
+                self.begin(key)  # The stored None is a hit, and ends the build.
             args = args or ()
             kwargs = kwargs or {}
             try:
-- 
2.43.0


From dc185db3466804ece44a44f0f92a4bc07166aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:52 +0000
Subject: [PATCH 34/34] fix: a bulk read of thousands of records does not
 exceed the recursion limit

The chain of deferred nodes is walked in a loop instead of recursively.
---
 cache_dependencies/defer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/defer.py b/cache_dependencies/defer.py
index b33375d..7efc739 100644
--- a/cache_dependencies/defer.py
+++ b/cache_dependencies/defer.py
@@ -189,12 +189,18 @@ class AbstractDeferredIterator(collections.Iterator):
         return self
 
     def _delegate(self):
-        if self._node.parent:
-            delegate = iter(self._node.parent)
+        # Not recursively: a bulk read of many records makes a long chain of nodes.
+        node = self._node.parent
+        while node:
+            delegate = iter(node)
             delegate.state = self.state
-            return next(delegate)
-        else:
-            raise StopIteration
+            if not delegate.is_exhausted():
+                return next(delegate)
+            node = node.parent
+        raise StopIteration
+
+    def is_exhausted(self):
+        return self._index >= len(self._node.queue)
 
     @property
     def state(self):
-- 
2.43.0

