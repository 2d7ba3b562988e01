From b2dab3717f3f95871403573ddaa7a8b1f1bbb8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 01/76] fix: PathMeta equality compares values, not deferred
 parsing state

---
 augpathlib/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..b18936d 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -156,11 +156,11 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+            # compare via items because __dict__ also holds the internal
+            # state used to defer parsing of created and updated
+            return (dict(self.items()) == dict(other.items()) and
+                    getattr(self, '_PathMeta__kwargs', None) ==
+                    getattr(other, '_PathMeta__kwargs', None))
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From fd4565f59f528ac518c8b40066ce004739bb481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 02/76] fix: PathMeta.__getitem__ returns the value

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b18936d..8fe99ca 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -140,7 +140,7 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
-- 
2.43.0


From 22447ed9280c44fb603c02e25d0556ea0aaba567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 03/76] fix: PathMeta can be pickled and copied

---
 augpathlib/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 8fe99ca..c7e2ae4 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -148,7 +149,9 @@ class PathMeta:
         yield from (k for k in self.__dict__ if not k.startswith('_'))
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        kwargs.update(getattr(self, '_PathMeta__kwargs', {}))
+        return partial(self.__class__, **kwargs), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From 2875b08ee83db8c704d8c9ed9ca78e658403b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 04/76] fix: symlink metadata refuses values it cannot
 represent, escapes the rest

---
 augpathlib/meta.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index c7e2ae4..b3a6ca5 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -311,36 +311,49 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            if any(not e or self.subfieldsep in e for e in value):
+                msg = f'Y U DO DIS >:| {field}: {value!r}'
+                raise ValueError(msg)  # FIXME error type
+
+            value = self.subfieldsep.join(value)
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
-        if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
+        if isinstance(value, str):
+            if (self.pathsep in value or
+                self.fieldsep_esc in value or
+                value == self.empty or
+                field == 'id' and not value):
+                # these would decode to something else
                 msg = f'Y U DO DIS >:| {field}: {value!r}'
                 raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
+            elif field == 'name' and '/' in value:
                 msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
                 raise ValueError(msg)  # FIXME error type
 
             value = value.replace('/', self.pathsep)
-
-        if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-
             value = value.replace(self.fieldsep, self.fieldsep_esc)
 
+        if field == 'errors':
+            return value
+
         return _str_encode(field, value)
 
+    def _unescape(self, value, version):
+        if version >= 5:
+            value = value.replace(self.pathsep, '/')
+            value = value.replace(self.fieldsep_esc, self.fieldsep)
+
+        return value
+
     def decode(self, field, value, version):
         if value == self.empty:
             return None
 
         if field == 'errors':
-            return [_ for _ in value.split(self.subfieldsep) if _]
+            return [self._unescape(_, version)
+                    for _ in value.split(self.subfieldsep) if _]
 
         elif field in ('created', 'updated'):
             setattr(self, '_' + field, value)
@@ -351,7 +364,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return bytes.fromhex(value)
 
         elif field == 'checksum_cypher':
-            return value
+            return self._unescape(value, version)
 
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
@@ -362,7 +375,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
+                return self._unescape(value, version)
 
         elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
             if self.pathsep in value:
-- 
2.43.0


From a99410bb4e7714c647633655c3d84fd1106725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 05/76] fix: symlinks in the original meta format can be
 decoded

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b3a6ca5..42a3687 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -465,7 +465,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 1cacbf74552e250e72c6aae61bcbdf7034931f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 06/76] fix: etag digest does not disturb subsequent updates

---
 augpathlib/utils.py | 55 ++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..b39f13e 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -202,54 +202,33 @@ class etag:
 
     def __init__(self, chunksize):
         self.chunksize = chunksize
-        self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
+
+    def _digest_part(self, part):
+        m = self.cypher()
+        m.update(part)
+        return m.digest()
 
     def update(self, bytes_):
-        remainder, self._remainder = self._remainder, b''
-        bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
+        bio = io.BytesIO(self._remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
-            chunk = self._remainder
-            self._remainder = bio.read(chunksize)
-            if not self._remainder:
-                # the second time around at the end this will break the loop if the chunk
-                # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
-                    self._remainder = chunk
-                    return
-
-            if chunk:
-                self._m.update(chunk)  # empty remainder doesn't advance the function
-                digest = self._m.digest()
-                self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+            self._remainder = bio.read(self.chunksize)
+            if len(self._remainder) < self.chunksize:
+                return
+
+            self._parts.append(self._digest_part(self._remainder))
 
     def digest(self):
+        # do not modify self so that it is possible to call digest
+        # early and then continue to update
+        parts = list(self._parts)
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            parts.append(self._digest_part(self._remainder))
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 5c8ee97a2ea2c0ec2d731b759696ccc3133ae6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 07/76] fix: data ranges exactly one chunk long can be read

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..f2731c5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1323,7 +1323,7 @@ class LocalPath(EatPath, AugmentedPath):
                     if total < chunksize:
                         nchunks = 0
                         last_chunksize = total
-                    elif total > chunksize:
+                    else:
                         nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
-- 
2.43.0


From 5c0a5c46cb06c051cad1f8ce8393a74c8af2bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 08/76] fix: empty data can be written

---
 augpathlib/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f2731c5..71a8396 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1353,7 +1353,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1363,7 +1363,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1406,7 +1406,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
-- 
2.43.0


From 85ae1978065d5a94de05e44c7c51462624acb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 09/76] fix: LocalPath.meta does not return a stale meta that
 lacks the checksum

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 71a8396..ad9d06a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1241,13 +1241,17 @@ class LocalPath(EatPath, AugmentedPath):
                                                   st.st_mtime)
 
         if hasattr(self, '_meta') and self._meta is not None:
-            if self.__change_tuple == change_tuple:
+            if (self.__change_tuple == change_tuple and
+                # do not return less than what was asked for
+                (self.__meta_checksum or not checksum) and
+                (not chunksize or self._meta.chunksize == chunksize)):
                 return self._meta
 
             old_meta = self._meta  # TODO log changes?
 
 
         self.__change_tuple = change_tuple  # TODO log or no?
+        self.__meta_checksum = checksum
 
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
@@ -1285,7 +1289,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From bfc1a27b68198c9cfaddbcaaa1e76489e5afeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 10/76] fix: swap_carefree puts both paths back if a rename
 fails

---
 augpathlib/core.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ad9d06a..e9f8ac0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -552,10 +552,21 @@ class AugmentedPath(pathlib.Path):
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            # if any step fails put everything back where it was
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                    try:
+                        temp.rename(self)
+                    except BaseException:
+                        target.rename(self)
+                        raise
+                except BaseException:
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
-- 
2.43.0


From c30ca90cec04e041aa19f9b2b79520c445bb934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 11/76] fix: swap works for relative paths and does not leak
 descriptors

---
 augpathlib/swap.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..8a90333 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -14,6 +14,7 @@ def swap_not_implemented(self, target):
 if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
+    AT_FDCWD = -100  # relative paths are relative to the cwd
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
     libc = ctypes.CDLL(None)
     rnat2_syscall = libc.syscall
@@ -27,15 +28,11 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
         old_path = os.fspath(self).encode()
         new_path = os.fspath(target).encode()
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
             raise OSError(value, 'renameat2 failed', self, None, target)
-- 
2.43.0


From 39208a9c9e95cdf31889b749f08d984f6923ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 12/76] fix: __all__ lists names that exist

---
 augpathlib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/__init__.py b/augpathlib/__init__.py
index ef5e6da..02612f9 100644
--- a/augpathlib/__init__.py
+++ b/augpathlib/__init__.py
@@ -44,7 +44,7 @@ __all__ = [
     'PathMeta',
 
     'AugmentedPath',
-    'XattrPath',
+    'EatPath',
     'RepoPath',
     'PackagePath',
     'XopenPath',
@@ -54,7 +54,7 @@ __all__ = [
     'PrimaryCache',
     'SqliteCache',
     'SymlinkCache',
-    'XattrCache',
+    'EatCache',
     'SshCache',
 
     'RemotePath',
-- 
2.43.0


From 22e64e11cc55d7c985f8df4ecf4279b91b4da19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 13/76] fix: validate_file can record a checksum mismatch

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..86bd940 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -615,7 +615,7 @@ class _CachePath(AugmentedPath):
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
                 nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From 334aa33025a80ae2bf0fc53a5a512fb17e208744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 14/76] fix: crumple returns the path that was actually used

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 86bd940..fa2585c 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -162,7 +162,8 @@ class _CachePath(AugmentedPath):
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                trashed = self._trashed_path_short
+                self.rename(trashed)
             else:
                 raise e
 
-- 
2.43.0


From a629aeee195c9ed410a5e80534c114e05d5dffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 15/76] fix: working_dir of a relative path considers the path
 itself

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..e5b3221 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -125,7 +125,7 @@ class RepoHelper:
 
         else:
             if not self.is_absolute():
-                return self.expanduser().absolute().parent.working_dir
+                return self.expanduser().absolute().working_dir
             else:
                 return self.parent.working_dir
 
-- 
2.43.0


From c472d1286ee22a19596f9b620fdc5bdf02689b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 16/76] fix: repo_patch imports the exceptions it raises

---
 augpathlib/repo_patch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..d17963d 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
-- 
2.43.0


From 1066d6d2f874d5e957232d7143112f8fb247ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 17/76] fix: commit does not pop a stash that it did not push

---
 augpathlib/repo.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index e5b3221..81ec305 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -306,21 +306,25 @@ class RepoHelper:
         if self.repo.active_branch.is_valid(): # handle the empty repo case
             # HAH take that complexity!
             _mes = self.repo.git.stash('push')
+            # if there was nothing to stash then stash@{0} is not ours
+            stashed = _mes != 'No local changes to save'
             try:
                 # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
+                if stashed:
+                    try:
+                        self.repo.git.checkout('stash@{0}', '--', self.as_posix())
+                    except self._git.exc.GitCommandError:
+                        pass
 
                 commit = self.repo.index.commit(message=message,
                                                 author_date=date)
                 return commit
             finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
+                if stashed:
+                    try:
+                        self.repo.git.stash('pop')
+                    except self._git.exc.GitCommandError:
+                        pass
         else:
             try:
                 self.repo.tree()
-- 
2.43.0


From 23346dc66e0884c90a435286aa573ff1d790112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 18/76] fix: commit works for paths relative to any working
 directory

---
 augpathlib/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 81ec305..c530468 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -312,7 +312,8 @@ class RepoHelper:
                 # FIXME concurrent modification?!
                 if stashed:
                     try:
-                        self.repo.git.checkout('stash@{0}', '--', self.as_posix())
+                        self.repo.git.checkout('stash@{0}', '--',
+                                               self.repo_relative_path.as_posix())
                     except self._git.exc.GitCommandError:
                         pass
 
-- 
2.43.0


From 34ee5ae501a27fbfc8f2eda876c3f85f350122c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 19/76] fix: pushd and popd leave the stack alone if chdir
 fails

---
 augpathlib/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index e9f8ac0..a94ff57 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -721,8 +721,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            cwd = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(cwd)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -734,8 +735,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From 1fe6edea9109f8041998c19cfe79bdb0fe3c2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 20/76] fix: nested with statements on the same path return to
 the right place

---
 augpathlib/caches.py |  5 ++---
 augpathlib/core.py   | 12 ++++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index fa2585c..7f88e3e 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,11 +37,10 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
-            self.chdir()
+            self._enter(self.local.cwd())  # caches can't exist outside their anchor anymore
             return self
         else:
-            super().__enter__(self)
+            super().__enter__()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index a94ff57..bb0858d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -745,16 +745,20 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
-            self.chdir()
+            self._enter(self.cwd())
             return self
         else:
             super().__enter__()
 
+    def _enter(self, cwd):
+        self.chdir()
+        # the same path object can be entered more than once
+        self._entered_from = [*getattr(self, '_entered_from', ()), cwd]
+
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if getattr(self, '_entered_from', ()):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 092edc659cce56fc89254890f0088211d782698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 21/76] fix: LocalPath.copy_to refuses to truncate the file it
 copies from

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index bb0858d..8dc5673 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1442,6 +1442,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if target.exists() and self.exists() and target.samefile(self):
+                # writing would truncate the data we are about to read
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From a954e1d1729274ffbccd21fadd0d83423c835eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 22/76] fix: a link that names another file is not taken for a
 case insensitive file system

---
 augpathlib/meta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 42a3687..46ba017 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -448,10 +448,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
-            if l.exists() and u.exists():
+            _l = symlink_path.as_posix()
+            l = pathlib.Path(_l.lower()).parent
+            u = pathlib.Path(_l.upper()).parent
+            if l != u and l.exists() and u.exists() and l.samefile(u):
                 breakpoint()
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
-- 
2.43.0


From 828c83c21b4d3f090c0f973cf281e12dd1188d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 23/76] fix: move onto a path that belongs to another file is
 refused

---
 augpathlib/caches.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7f88e3e..98d779f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -967,6 +967,14 @@ class _CachePath(AugmentedPath):
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
+            if target.exists() or target.is_broken_symlink():
+                # writing meta on another file makes it look like self
+                # and then the rename below destroys it
+                existing = target.cache
+                _id = remote.id if remote else meta.id
+                if existing is None or existing.id != _id:
+                    raise exc.PathExistsError(f'Target {target} already exists!')
+
             target = self.__class__(target, meta=meta)
 
         if target.exists() or target.is_broken_symlink():
@@ -992,7 +1000,9 @@ class _CachePath(AugmentedPath):
                     # directory moves that are resolved during pull
                     log.warning(f'what is this!?\n{target}\n{self}')
             elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
+
                 raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
             else:
                 raise exc.PathExistsError(f'Target {target} already exists!')
-- 
2.43.0


From 7ff2ef7f0efadfa56d1ffa00c55b2110a266d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 24/76] fix: paths of one class with extended attributes have
 one type on 3.12

---
 augpathlib/caches.py | 2 +-
 augpathlib/core.py   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 98d779f..dbc7352 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -970,7 +970,7 @@ class _CachePath(AugmentedPath):
             if target.exists() or target.is_broken_symlink():
                 # writing meta on another file makes it look like self
                 # and then the rename below destroys it
-                existing = target.cache
+                existing = self.local_class(target).cache
                 _id = remote.id if remote else meta.id
                 if existing is None or existing.id != _id:
                     raise exc.PathExistsError(f'Target {target} already exists!')
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8dc5673..ee19f67 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -951,8 +951,11 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # keep one helper class per class so that the types match
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From 9cbaa6d3a83e75db8cd8a4027b4c273de0e77ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 25/76] fix: local metadata is not cached as current when
 making it failed

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ee19f67..4b2b389 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1270,8 +1270,7 @@ class LocalPath(EatPath, AugmentedPath):
             old_meta = self._meta  # TODO log changes?
 
 
-        self.__change_tuple = change_tuple  # TODO log or no?
-        self.__meta_checksum = checksum
+        want_checksum = checksum
 
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
@@ -1321,6 +1320,11 @@ class LocalPath(EatPath, AugmentedPath):
                               gid=st.st_gid,
                               mode=mode)
 
+        # only once the metadata is there, otherwise a failure above
+        # would leave the old metadata looking like it was current
+        self.__change_tuple = change_tuple  # TODO log or no?
+        self.__meta_checksum = want_checksum
+
         return self._meta
 
     @meta.setter
-- 
2.43.0


From 67ad1a9b0ee8f825fae45bb5d317212778e8df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 26/76] fix: rmtree reports the path and function that failed
 to onerror

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 4b2b389..dd11e6f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -675,6 +675,7 @@ class AugmentedPath(pathlib.Path):
             elif self == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self
         try:
             if self.is_dir():
                 if self.is_symlink():
@@ -710,7 +711,7 @@ class AugmentedPath(pathlib.Path):
         except BaseException as e:
             if not ignore_errors:
                 if onerror is not None:
-                    ftype = 'rmdir' if path.is_dir() else 'unlink'
+                    ftype = 'rmdir' if path.is_dir() and not path.is_symlink() else 'unlink'
                     func = getattr(path, ftype)
                     onerror(func, path, sys.exc_info())
                 else:
-- 
2.43.0


From bf372ad3372748869dee0454ef460d2dcdc3c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 27/76] fix: swap works for names that are not valid utf-8

---
 augpathlib/swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 8a90333..4193797 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -28,8 +28,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
                               AT_FDCWD, old_path,
                               AT_FDCWD, new_path,
-- 
2.43.0


From d9f570aec8b1419f9b8d4d13ef3e36766fa29577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 28/76] fix: entering what is not a directory does not disturb
 an outer with statement

---
 augpathlib/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index dd11e6f..5630471 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -750,16 +750,21 @@ class AugmentedPath(pathlib.Path):
             return self
         else:
             super().__enter__()
+            self._enter(None)
 
     def _enter(self, cwd):
-        self.chdir()
+        if cwd is not None:
+            self.chdir()
+
         # the same path object can be entered more than once
+        # None means that there is no directory to return to
         self._entered_from = [*getattr(self, '_entered_from', ()), cwd]
 
     def __exit__(self, t, v, tb):
-        if getattr(self, '_entered_from', ()):
-            # if is_dir fails because of a change still try to return
-            self._entered_from.pop().chdir()
+        # if is_dir fails because of a change still try to return
+        entered_from = self._entered_from.pop() if getattr(self, '_entered_from', ()) else None
+        if entered_from is not None:
+            entered_from.chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From ace171e5b24d2abfcbddc1f26e2aac5842c7dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 29/76] fix: getxattr raises the error that happened where
 there is no ENOATTR

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5630471..a59e2fc 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,8 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            # ENOATTR is not defined on every platform
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 9f6af31636fcad158d2bdc9b6a61c1e4ef93fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 30/76] fix: parts of a remote with a local cache do not depend
 on names being unique

---
 augpathlib/remotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..8a74103 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -471,11 +471,13 @@ class RemotePath:
             # FIXME can this go stale? if so how?
             #log.debug(cache_parent)
             if cache_parent is not None and parent.id == cache_parent.id:
+                    cache_anchor = getattr(self, '_cache_anchor', None)
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        elif c_parent == cache_anchor or c_parent.id == remote.id:
+                            # names are not unique and the name of
+                            # remote itself is not one of the parts
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From 76e1543f15d9749816e8882aec1b63980e9695fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 31/76] fix: a cache class that is anchored is not anchored
 again

---
 augpathlib/caches.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index dbc7352..8a3add5 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -78,13 +78,19 @@ class _CachePath(AugmentedPath):
         # to construct a live CachePath by sideloading the remote id
         # which is OK for the path where local/remote binding has already
         # been completed
-        if '_anchor' not in self.__class__.__dict__:
-            self.__class__._abstract_class()._anchor = self
-            self.local_data_dir_init()  # call every time for insurance
-            self._remote_class.anchorToCache(self, init=remote_init)
+        acls = self.__class__._abstract_class()
+        if '_anchor' not in acls.__dict__:
+            acls._anchor = self
+            try:
+                self.local_data_dir_init()  # call every time for insurance
+                self._remote_class.anchorToCache(self, init=remote_init)
+            except BaseException:
+                # not anchored after all
+                del acls._anchor
+                raise
 
         else:
-            raise ValueError(f'{self.__class__} already anchored to {self.__class__._anchor}')
+            raise ValueError(f'{self.__class__} already anchored to {acls._anchor}')
 
     @property
     def local_class(self):
-- 
2.43.0


From 11c16590bfe8bd30bf4712ad9eba72d8dbfeab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 32/76] fix: smartAnchor does not anchor to the cache of
 another root

---
 augpathlib/remotes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 8a74103..c889da8 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -148,14 +148,13 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            # checks that it is a cache of this root
+            return cls.anchorToCache(path.cache, init=False)
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                return cls.anchorToCache(path.cache, init=False)
             else:
                 raise e
 
-- 
2.43.0


From 5ddc5f0336c024aaea4ffdd3d7617c1204f323b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 33/76] fix: anchorTo reports names that do not match when root
 is an id

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index c889da8..d657a39 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -113,7 +113,7 @@ class RemotePath:
                     # unlike git you cannot clone to a folder with a different
                     # name (for now ... maybe can figure out how in the future)
                     raise ValueError('Path name and root name do not match.'
-                                     f'{path.name} != {cls.root.name}')
+                                     f'{path.name} != {root.name}')
 
                 if create:
                     return cls.dropAnchor(path.parent)  # existing folder dealt with in dropAnchor
-- 
2.43.0


From c676b448ef3dbcca5701a6fdae334d7d4a1197c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 34/76] fix: anchorToCache compares ids also when root is an
 object

---
 augpathlib/remotes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index d657a39..d6042c6 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -82,12 +82,15 @@ class RemotePath:
                 if not hasattr(cls, '_api'):
                     cls.init(cache_anchor.id)
 
-            if hasattr(cls, 'root') and cls.root != cache_anchor.id:
+            # root may be an object, as in anchorTo
+            root = getattr(cls, 'root', None)
+            root_id = root.id if isinstance(root, RemotePath) else root
+            if hasattr(cls, 'root') and root_id != cache_anchor.id:
                 if hasattr(cls, '_remote_root') and cls._remote_root == cache_anchor.id:
                     pass
                 else:
                     raise ValueError('root and anchor ids do not match! '
-                                     f'{cls.root} != {cache_anchor.id}')
+                                     f'{root_id} != {cache_anchor.id}')
 
             cls._cache_anchor = cache_anchor
             return cls._cache_anchor
-- 
2.43.0


From 0ef340e7299789e42eedcc10e4cdc6cfa9482a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 35/76] fix: recursive bootstrap never ended when a local
 directory had no cache

---
 augpathlib/caches.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 8a3add5..dc8ef88 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -491,12 +491,15 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        # nothing to refresh, don't look at it again
+                        local_dirs.discard(d)
                         continue
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
                     local_dirs = set(ld for ld in local_dirs
                                      if not ld.as_posix().startswith(d.as_posix()))
-                    old_local = local_dirs - rd
+
+                old_local = local_dirs - rd
 
         if sparse:
             #if local_dirs:
-- 
2.43.0


From 1b64c2fe8d466487b2b2866fdeca3b71c2f418fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 36/76] fix: children at the anchor hid names whose stem is
 ignored

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a59e2fc..6db7fc3 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1489,7 +1489,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From 68da174fed0fa590cf70de992f2808ac7d8800e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 37/76] fix: exists of a path outside of zip files that is not
 there

---
 augpathlib/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..5ed5153 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -121,7 +121,7 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
+        return (super().exists() if self.zip_path is None else
                 self.zip_relative_path.exists())
 
     @property
-- 
2.43.0


From 7ace43b9f03f1e95269e6a6478f26df66e81c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 38/76] fix: reading from a zip file closes only its own file

---
 augpathlib/zip.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 5ed5153..0230f54 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -101,16 +101,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From 31712b9fbcf66d3fabba12f5bfde57b5d095c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 39/76] fix: paths that are not in the zip file are not
 directories

---
 augpathlib/zip.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 0230f54..47f6a94 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -1,4 +1,6 @@
+import os
 import sys
+import errno
 import zipfile
 from pathlib import PurePath
 from augpathlib import AugmentedPath, LocalPath
@@ -73,7 +75,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,7 +85,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(self))
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
-- 
2.43.0


From 0499d5f3ba5851b62a10aeb82785b3314b89213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 40/76] fix: the last member of a name is the one that counts
 in a zip file

---
 augpathlib/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 47f6a94..7f4a408 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -23,7 +23,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     (ZipInternalPath,),
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
-        paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
+        paths = set(zipath(info=zi) for zi in zipath.zip_file.NameToInfo.values())
         parents = set(parent for path in paths for parent in path.parents)
         zipath._paths = {p:p for p in parents | paths}
         return zipath
-- 
2.43.0


From 776315f222ae0b9a5558e639bee5d164bdf73700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 41/76] fix: only zip files are treated as zip files

---
 augpathlib/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 7f4a408..a62f73a 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -159,7 +159,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if zipfile.is_zipfile(self):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
-- 
2.43.0


From 01122dd42d23c10968eb3491b99b78bbbef4ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 42/76] fix: relative zip paths were confused across working
 directories

---
 augpathlib/zip.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a62f73a..16e0d03 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -128,11 +128,15 @@ class ZipHelper:
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
+        if zp is None:
+            return None
+
+        azp = zp.absolute()  # a relative path can be another file tomorrow
+        if azp not in self._zfc_cache:
             zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+            self._zfc_cache[azp] = zipath
 
-        return self._zfc_cache.get(zp, None)
+        return self._zfc_cache[azp]
 
     @property
     def zip_relative_path(self):
-- 
2.43.0


From cee9453e673c96b820351353936ee6c10dce0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 43/76] fix: an empty zip file exists

---
 augpathlib/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 16e0d03..a5811b8 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -25,7 +25,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         zipath._bind_flavours()
         paths = set(zipath(info=zi) for zi in zipath.zip_file.NameToInfo.values())
         parents = set(parent for path in paths for parent in path.parents)
-        zipath._paths = {p:p for p in parents | paths}
+        zipath._paths = {p:p for p in parents | paths | {zipath('')}}
         return zipath
 
     def __new__(cls, *args, info=None, **kwargs):
-- 
2.43.0


From dc69b76f1e47d2a3abdc8be0cd8740f9a7e501f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 44/76] fix: restore the working tree when a reference cannot
 be checked out

---
 augpathlib/repo_patch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index d17963d..5d2fb6b 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -68,7 +68,13 @@ class _Reference(git.Reference):
         if self == self.__original_branch:
             return self
 
-        self.checkout()
+        try:
+            self.checkout()
+        except BaseException:
+            # __exit__ is not called if __enter__ fails
+            self.__exit__(None, None, None)
+            raise
+
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-- 
2.43.0


From 17015812067ad2a13123bce431b19e1e397787ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 45/76] fix: commit the deletion of a file

---
 augpathlib/repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c530468..a1902a1 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -315,7 +315,9 @@ class RepoHelper:
                         self.repo.git.checkout('stash@{0}', '--',
                                                self.repo_relative_path.as_posix())
                     except self._git.exc.GitCommandError:
-                        pass
+                        # if it is tracked but not in the stash it was deleted
+                        self.repo.git.rm('-r', '-q', '--ignore-unmatch', '--',
+                                         self.repo_relative_path.as_posix())
 
                 commit = self.repo.index.commit(message=message,
                                                 author_date=date)
-- 
2.43.0


From 2b1eb9dd7286faa0ab8e6269117b16af1ec06e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 46/76] fix: show keeps the newline at the end of a file

---
 augpathlib/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index a1902a1..c9befbe 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -354,7 +354,8 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
+            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+                                         strip_newline_in_stdout=False)
             return decoded.encode('utf-8', 'surrogateescape')
 
         return  # unfortunately traversing the tree is a pain for this
-- 
2.43.0


From b3348bb4b2e3d25b400761bd6184e5864a530dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 47/76] fix: refuse to init a path in a repo that does not
 exist yet

---
 augpathlib/repo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c9befbe..18eec9a 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -76,9 +76,7 @@ class RepoHelper:
             repo = None
 
         if repo is not None:
-            if not self.exists():
-                msg = f'how!? {self!r} != {repo.working_dir}'
-                assert repo.working_dir == self.as_posix(), msg
+            if not self.exists() and repo.working_dir == self.as_posix():
                 log.warning(f'stale cache on deleted repo {self!r}')
                 self._repos.pop(self)
             else:
-- 
2.43.0


From 539b21bdfaef5657fe298e63c99c3593bb3c1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 48/76] fix: diff against the index

---
 augpathlib/repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 18eec9a..214bef2 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -235,7 +235,9 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        # GitPython does not take an IndexFile as other, the index is its default
+        kwargs = {} if isinstance(other, self._git.IndexFile) else {'other': other}
+        list_ = this.diff(paths=self.repo_relative_path.as_posix(), create_patch=create_patch, **kwargs)
         if list_:
             return list_[0]
 
-- 
2.43.0


From 8c39b7f85ccc29ea3cd4cb36cfae42a733e5894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 49/76] fix: only the suffix .git of a remote is not part of
 the name of its clone

---
 augpathlib/repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 214bef2..12153bb 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -34,7 +34,9 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
+        # this matches git, which only drops .git
+        remote = pathlib.PurePath(remote)
+        name = remote.stem if remote.suffix == '.git' else remote.name
         return self / name
 
     def clone_from(self, remote, *, depth=None):
-- 
2.43.0


From 929ea2eec13629a73ffdb08cedb7cef67041600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 50/76] fix: do not take the tags of other packages in the repo

---
 augpathlib/package.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..46a218e 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -275,9 +275,12 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                prefix = self.arg_packagename + '-'
             else:
-                these = [r for r in gj if r['tag_name'][0] in '0123456789']
+                prefix = ''
+
+            these = [r for r in gj if r['tag_name'].startswith(prefix)
+                     and r['tag_name'][len(prefix):][:1] in tuple('0123456789')]
 
             if these:
                 latest = these[0]
@@ -314,7 +317,8 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            # other packages may have a name that starts with this one
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
-- 
2.43.0


From 0b41d58c53ae1fa3730f6ec54c5c5c30712998dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 51/76] fix: making the cache of a remote object together with
 the directories above it

---
 augpathlib/remotes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index d6042c6..72a87d4 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -297,10 +297,7 @@ class RemotePath:
             if parents:
                 #parent, *rest = self.parent.cache_init(parents=parents)
                 #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
+                self.parent.cache_init(parents=parents)
                 return self.cache_init()
             else:
                 raise
-- 
2.43.0


From 3a35e22d7afd2f6a523d77076bce956a17dcace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 52/76] fix: storing metadata in extended attributes left
 fields of the record before

---
 augpathlib/caches.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index dc8ef88..aa74274 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -2,7 +2,7 @@ import sys
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
-from augpathlib.meta import PathMeta
+from augpathlib.meta import PathMeta, _PathMetaAsXattrs
 from augpathlib.core import AugmentedPath, EatPath
 from augpathlib.utils import log, fs_safe_id
 from augpathlib.utils import default_cypher, cypher_lookup
@@ -1110,7 +1110,16 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            xattrs = pathmeta.as_xattrs(self.xattr_prefix)
+            self.setxattrs(xattrs)
+            # fields of the previous record that have no value anymore
+            # must not be read back as if they were part of this one
+            prefix = self.xattr_prefix + '.' if self.xattr_prefix else ''
+            fields = [(prefix + field).encode() for field in _PathMetaAsXattrs.fields]
+            for key in self.xattrs():
+                if key in fields and key not in xattrs:
+                    self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 0c014cc219918215c66f318e6bee62cb60f435d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 53/76] fix: restoring the metadata of a path that does not
 exist from the backup recursed forever

---
 augpathlib/caches.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index aa74274..1b77032 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1327,13 +1327,18 @@ class PrimaryCache(CachePath):
             except exc.NoCachedMetadataError as e:
                 log.warning(e)
 
-        if self._backup_cache:
+        if self._backup_cache and not hasattr(self, '_restoring'):
             try:
                 cache = self._backup_cache(self)
                 meta = cache.meta
                 if meta:
                     log.info(f'restoring from backup {meta}')
-                    self._meta_setter(meta)  # repopulate primary cache from backup
+                    self._restoring = True  # the setter may ask for meta again
+                    try:
+                        self._meta_setter(meta)  # repopulate primary cache from backup
+                    finally:
+                        delattr(self, '_restoring')
+
                     return meta
 
             except exc.NoCachedMetadataError as e:
-- 
2.43.0


From aa63bf73da07244949b63dc6477e4ff0caab2d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 54/76] fix: PathMeta: names include created and updated

---
 augpathlib/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 46ba017..0d054b9 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -147,6 +147,8 @@ class PathMeta:
 
     def __iter__(self):
         yield from (k for k in self.__dict__ if not k.startswith('_'))
+        # stored under other names to defer parsing
+        yield from ('created', 'updated')
 
     def __reduce__(self):
         kwargs = {k:v for k, v in self.items() if v is not None}
-- 
2.43.0


From e15d20e19642eca46ee82b7d1955de8125176a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 55/76] fix: SshRemote: names of remote files are not
 interpreted by the remote shell

---
 augpathlib/remotes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 72a87d4..e71d566 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -847,7 +848,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -888,7 +889,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # read from stdin because sha256sum and friends escape odd names
+        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
@@ -904,7 +906,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {shlex.quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -972,7 +974,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
+            remote_cmd = (f"cd {shlex.quote(self.rpath)};"
                           f"{self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
                           f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-- 
2.43.0


From 0c549787a1a931a0626351841b1644bf8f2818d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 56/76] fix: SshRemote.is_file: an empty file is a file

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index e71d566..9b38550 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -963,7 +963,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From 6a5cdaaa1fd178ec0e0a828cfc4dbdda0bd59f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 57/76] fix: SshRemote.data: a transfer that fails is an error

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 9b38550..5926327 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -858,6 +858,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             yield data
 
         p.communicate()
+        if p.returncode:
+            # what was read is not (all) the data
+            raise subprocess.CalledProcessError(p.returncode, cmd)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
-- 
2.43.0


From 4152258a4bd51424b54d981c6be2bac70a1bd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 58/76] fix: SshRemote.access: only the bits of the class of
 the user count

---
 augpathlib/remotes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 5926327..5f2efdf 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -826,9 +826,12 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        if st.st_uid == self._uid:
+            return bool(u & current)
+        elif st.st_gid in self._gids:
+            return bool(g & current)
+        else:
+            return bool(e & current)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
-- 
2.43.0


From 1b14db9b4d85120f81295191d4674467484eea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 59/76] fix: SshRemote: wait until a command is done before
 reading its output

---
 augpathlib/remotes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 5f2efdf..ddc1ffd 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -876,7 +876,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if len(remote_cmd) > cls._cols:
             raise exc.CommandTooLongError
         n_bytes = cls.session.sendline(remote_cmd)
-        cls.session.prompt()
+        # without a timeout, because once a prompt is missed every later
+        # command is answered with the output of the one before
+        cls.session.prompt(timeout=None)
         raw = cls.session.before
         out = raw[n_bytes + 1:].strip()  # strip once here since we always will
         #print(raw)
-- 
2.43.0


From bf0637b595b7498bceffb4dbc6e8201122bc4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 60/76] fix: StatResult: names may contain double spaces

---
 augpathlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index b39f13e..610df92 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -169,7 +169,7 @@ class StatResult:
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # the name may contain anything
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
-- 
2.43.0


From c0e0444286d5b5674bb05d93e3ae5a80e155df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 61/76] fix: the root found for a path does not depend on the
 order of a set of its variants

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6db7fc3..ed5d0de 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1160,7 +1160,7 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        for variant in (self.absolute(), self.resolve()):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
-- 
2.43.0


From 20cb5d2a9a94c4e659736aa8969752202af23e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 62/76] fix: initializing local data again with the same
 symlink for objects also makes the trash

---
 augpathlib/caches.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 1b77032..4d12728 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -208,21 +208,21 @@ class _CachePath(AugmentedPath):
             # them in ~/.cache or similar
             if lod.is_symlink():
                 msg = f'{lod} is already symlinked to {lod.readlink()}'
-                if lod.resolve() == symlink_objects_to.resolve():
-                    log.info(msg)
-                    return
+                if lod.resolve() != symlink_objects_to.resolve():
+                    raise NotADirectoryError(msg)
 
-                raise NotADirectoryError(msg)
-            elif lod.exists():
-                try:
-                    lod.rmdir()
-                except OSError as e:
-                    msg = ('local objects dir already exists did you mean '
-                           'to run with symlink_objects_to set?')
-                    log.error(msg)
-                    raise e
-
-            lod.symlink_to(symlink_objects_to)
+                log.info(msg)
+            else:
+                if lod.exists():
+                    try:
+                        lod.rmdir()
+                    except OSError as e:
+                        msg = ('local objects dir already exists did you mean '
+                               'to run with symlink_objects_to set?')
+                        log.error(msg)
+                        raise e
+
+                lod.symlink_to(symlink_objects_to)
         else:
             lod.mkdir(exist_ok=exist_ok)
 
-- 
2.43.0


From 22bf0af5a145e1176411115550d6f57cb99f4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 63/76] fix: remote uris keep a suffix of the name of the
 repository that is not .git

---
 augpathlib/repo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 12153bb..5fbeaf1 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -159,6 +159,11 @@ class RepoHelper:
             netloc = 'github.com'
             path = '/' + group + path
 
+        path = path.rstrip('/')
+        if path.endswith('.git'):
+            # only .git is not part of the name of the repository
+            path = path[:-len('.git')]
+
         return repo, rnprefix, url_base, netloc, path
 
     def _remote_uri(self, prefix, infix=None, ref=None):
@@ -176,9 +181,9 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
             return prefix + rpath.as_posix()
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
@@ -190,7 +195,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(path)
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From f36376b35c90bf7b63c3703edc594fb0867600e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 64/76] fix: without a release all commits are since the last
 release

---
 augpathlib/package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 46a218e..006eabd 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -388,9 +388,9 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
+        commits = f'{_tag}..HEAD' if _tag else 'HEAD'
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                commits,
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 72806f3242c9214bd006057ede8e7aaa79d15706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 65/76] fix: a remote at github may be given as
 ssh://git@github.com/ as well

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 5fbeaf1..f8718c7 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -155,9 +155,10 @@ class RepoHelper:
         netloc = pu.netloc
         path = pu.path
         if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
+            _, _, group = netloc.partition(':')
             netloc = 'github.com'
-            path = '/' + group + path
+            if group:
+                path = '/' + group + path
 
         path = path.rstrip('/')
         if path.endswith('.git'):
-- 
2.43.0


From 4965d6d2031c7bd015d5e0b7a2e9b5e9bb99ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 66/76] fix: only a remote at github.com itself is one at
 github

---
 augpathlib/repo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index f8718c7..f02ea60 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -154,8 +154,8 @@ class RepoHelper:
         pu = urlparse(url_base)
         netloc = pu.netloc
         path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, _, group = netloc.partition(':')
+        host, _, group = netloc.partition(':')
+        if host == 'git@github.com':
             netloc = 'github.com'
             if group:
                 path = '/' + group + path
-- 
2.43.0


From 935784264cc3af877f2553d313dab70afdffcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 67/76] fix: mkdir_remote of a path that is in no cache fails
 also with parents=True

---
 augpathlib/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ed5d0de..425b548 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1148,8 +1148,8 @@ class LocalPath(EatPath, AugmentedPath):
 
                     remote._cache = local.cache
                     return remote
-        else:
-            raise FileNotFoundError('missing parent for {self} and parents=False')
+
+        raise FileNotFoundError(f'missing parent for {self} and parents={parents}')
 
     def find_cache_root(self, fail=False):
         """ find the local root of the cache tree, even if we start with skips """
-- 
2.43.0


From c3e8cd754ef4dac6c611b2064589f971ada572f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:46 +0000
Subject: [PATCH 68/76] fix: a remote path made from an absolute path and
 further parts starts there as well

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index ddc1ffd..9e5f1f2 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -648,7 +648,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if sys.version_info >= (3, 12):
             # FIXME HACK workaround reordering of __new__ and __init__ in 3.12
             pathlib.PurePath.__init__(_self, *args)
-            if _self._raw_paths and _self._raw_paths[-1].startswith('/'):
+            if any(raw.startswith('/') for raw in _self._raw_paths):
                 # XXX ENORMOUS HACK to match rerooting behavior from < 3.12 FIXME need better solution
                 _self.root = _self.root.split('/', 1)[0] + '/'
 
-- 
2.43.0


From 6ed75a39a28b8ad68225797aee1d5b25bcae4f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 69/76] fix: a cypher given to checksum is used also if it is
 the default one

---
 augpathlib/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 425b548..e9e9f85 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -817,23 +817,25 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
+            if cypher is not None:
+                pass
             elif ((hasattr(self, '_cache_class') and
                  hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
+                 self._cache_class.cypher != default_cypher)):  # FIXME this could be static ...
                 cypher = self._cache_class.cypher
 
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
+            elif hasattr(self, 'cypher'):
                 cypher = self.cypher
 
+            else:
+                cypher = default_cypher
+
             m = cypher()
             extra = [c() for c in extra_cyphers]
             for chunk in self.data:
-- 
2.43.0


From d632f0cf9e3794d3413fcc16857078df8a928c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 70/76] fix: leaving a reference returns to the branch also if
 that is the reference entered

---
 augpathlib/repo_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index 5d2fb6b..dc07e0f 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -84,8 +84,8 @@ class _Reference(git.Reference):
         else:
             stash = "stash@{1}"
 
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
+        # the block may have checked out something else, whatever was entered
+        self.__original_branch.checkout()
 
         # TODO check to make sure no other stashes were pushed on top
         if self.__stash is not None:
-- 
2.43.0


From 548110c0e49e60bb563a936bfcf6e050b1992819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 71/76] fix: the same reference object can be entered more than
 once

---
 augpathlib/repo_patch.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index dc07e0f..19a1e76 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -60,12 +60,15 @@ class _Reference(git.Reference):
         if not self.is_valid():
             raise exc.InvalidRefError(f'Not a valid ref: {self.name}')
 
-        self.__original_branch = self.repo.active_branch
-        self.__stash = self.repo.git.stash('--all')  # always stash
-        if self.__stash == 'No local changes to save':
-            self.__stash = None
+        original_branch = self.repo.active_branch
+        stash = self.repo.git.stash('--all')  # always stash
+        if stash == 'No local changes to save':
+            stash = None
 
-        if self == self.__original_branch:
+        # the same reference object can be entered more than once
+        self.__entered = [*getattr(self, '_Reference__entered', ()), (original_branch, stash)]
+
+        if self == original_branch:
             return self
 
         try:
@@ -78,6 +81,7 @@ class _Reference(git.Reference):
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
+        original_branch, entry_stash = self.__entered.pop()
         _stash = self.repo.git.stash('--all')  # always stash on the way out as well
         if _stash == 'No local changes to save':
             stash = 'stash@{0}'
@@ -85,14 +89,12 @@ class _Reference(git.Reference):
             stash = "stash@{1}"
 
         # the block may have checked out something else, whatever was entered
-        self.__original_branch.checkout()
+        original_branch.checkout()
 
         # TODO check to make sure no other stashes were pushed on top
-        if self.__stash is not None:
+        if entry_stash is not None:
             self.repo.git.stash('pop', stash)
 
-        self.__stash = None
-
 
 # monkey patch git.Reference
 git.Reference.__enter__ = _Reference.__enter__
-- 
2.43.0


From a9eea515495909f430ba3fe606677dea528186a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 72/76] fix: a reference that cannot be checked out, such as a
 tag, leaves the repository as it was

---
 augpathlib/repo_patch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index 19a1e76..6d0c024 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -66,7 +66,8 @@ class _Reference(git.Reference):
             stash = None
 
         # the same reference object can be entered more than once
-        self.__entered = [*getattr(self, '_Reference__entered', ()), (original_branch, stash)]
+        # and not every kind of reference can hold attributes, the repo can
+        self.repo._entered = [*getattr(self.repo, '_entered', ()), (original_branch, stash)]
 
         if self == original_branch:
             return self
@@ -81,7 +82,7 @@ class _Reference(git.Reference):
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        original_branch, entry_stash = self.__entered.pop()
+        original_branch, entry_stash = self.repo._entered.pop()
         _stash = self.repo.git.stash('--all')  # always stash on the way out as well
         if _stash == 'No local changes to save':
             stash = 'stash@{0}'
-- 
2.43.0


From e0c450af411e0c873ce7d5fc3ab66f78e6f35a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 73/76] fix: validating a file again does not record the same
 mismatch again

---
 augpathlib/caches.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 4d12728..09a5a18 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -622,9 +622,10 @@ class _CachePath(AugmentedPath):
             if lc != cc:
                 msg = f'Checksums do not match!\n(!=\n{lc.hex()}\n{cc.hex()}\n)'
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
-                nmeta = {k: v for k, v in meta.items()}
-                nmeta['errors'] += ('checksum-mismatch',)
-                self._meta_setter(meta.__class__(**nmeta))
+                if 'checksum-mismatch' not in meta.errors:
+                    nmeta = {k: v for k, v in meta.items()}
+                    nmeta['errors'] += ('checksum-mismatch',)
+                    self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From b898e8e5fe040f699d66ebf6851e7a52b2da7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 74/76] fix: an unknown time of update is no evidence of a
 change

---
 augpathlib/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 0d054b9..656a626 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -123,6 +123,9 @@ class PathMeta:
             return self.checksum != other.checksum
         else:
             return (self.size != other.size or
+                    # if either time is not known it is no evidence
+                    self.updated is not None and
+                    other.updated is not None and
                     self.updated < other.updated)
 
     def items(self):
-- 
2.43.0


From 23ddd0a4dd45374f000c2762b3b5dc35c0c7c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 75/76] fix: the diff of two records shows every field of
 either

---
 augpathlib/meta.py | 49 ++++++++--------------------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 656a626..829b17d 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -775,51 +775,18 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
-            keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
+            # every field that either of them has, once, in the usual order
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
-            for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
-                yield l + r
+            keys = sorted(set(kv) | set(okv),
+                          key=lambda k: (self.fields.index(k) if k in self.fields
+                                         else len(self.fields), k))
+            blank = ['', '']
+            return [kv.get(k, blank) + okv.get(k, blank) for k in keys]
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
-        rows = h + list(merge(self.rows(pathmeta, human=human),
-                              self.rows(othermeta, human=human)))
+        rows = h + merge(self.rows(pathmeta, human=human),
+                         self.rows(othermeta, human=human))
         try:
             table = AsciiTable(rows, title=title).table
         except TypeError as e:
-- 
2.43.0


From d5942acf94b337bba860f722ee707b4b6a3049da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:43 +0000
Subject: [PATCH 76/76] fix: a relative path of a remote machine starts at the
 anchor

---
 augpathlib/remotes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 9e5f1f2..6d1aebb 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -648,6 +648,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if sys.version_info >= (3, 12):
             # FIXME HACK workaround reordering of __new__ and __init__ in 3.12
             pathlib.PurePath.__init__(_self, *args)
+            if not any(raw.startswith('/') for raw in _self._raw_paths):
+                # a relative path starts at the anchor
+                pathlib.PurePath.__init__(_self, cls._anchor, *args)
+
             if any(raw.startswith('/') for raw in _self._raw_paths):
                 # XXX ENORMOUS HACK to match rerooting behavior from < 3.12 FIXME need better solution
                 _self.root = _self.root.split('/', 1)[0] + '/'
@@ -713,6 +717,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if isinstance(thing_with_id, pathlib.PurePath):
             thing_with_id = thing_with_id.as_posix()
 
+        if sys.version_info >= (3, 12):
+            # __new__ already dealt with the args and the host
+            args = ()
+
         super().__init__(thing_with_id, *args, cache=cache)
 
     @property
-- 
2.43.0

