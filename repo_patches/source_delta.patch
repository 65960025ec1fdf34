From 7546309c438677bc5643acbdfc6b7e5692bfe6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 01/66] fix: refuse symlink metadata values that decode to
 something else

'#', '|' and '!' are the empty marker and the escapes of the symlink
format, so values containing them were silently altered. errors,
checksum_cypher and user_id were written without being escaped or read
without being unescaped, so the fields after them were corrupted.
---
 augpathlib/meta.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..05616de 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -308,35 +308,46 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            for error in value:
+                if self.subfieldsep in error:
+                    msg = f'Y U DO DIS >:| {field}: {error!r}'
+                    raise ValueError(msg)  # FIXME error type
+
+            value = self.subfieldsep.join(value)
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
-        if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
+        if isinstance(value, str):
+            if (value == self.empty or
+                self.pathsep in value or
+                self.fieldsep_esc in value):
+                # these would decode to something else
                 msg = f'Y U DO DIS >:| {field}: {value!r}'
                 raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
+            elif field == 'name' and '/' in value:
                 msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
                 raise ValueError(msg)  # FIXME error type
 
-            value = value.replace('/', self.pathsep)
-
-        if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-
-            value = value.replace(self.fieldsep, self.fieldsep_esc)
+            value = (value
+                     .replace('/', self.pathsep)
+                     .replace(self.fieldsep, self.fieldsep_esc))
 
         return _str_encode(field, value)
 
+    def unescape(self, value):
+        return (value
+                .replace(self.pathsep, '/')
+                .replace(self.fieldsep_esc, self.fieldsep))
+
     def decode(self, field, value, version):
         if value == self.empty:
             return None
 
         if field == 'errors':
+            if version >= 5:
+                value = self.unescape(value)
+
             return [_ for _ in value.split(self.subfieldsep) if _]
 
         elif field in ('created', 'updated'):
@@ -348,7 +359,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return bytes.fromhex(value)
 
         elif field == 'checksum_cypher':
-            return value
+            return self.unescape(value) if version >= 5 else value
 
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
@@ -359,7 +370,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
+                return self.unescape(value) if version >= 5 else value
 
         elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
             if self.pathsep in value:
-- 
2.43.0


From 9b2dc40ad6ea8423f1c8f1f804998bcfe9433115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 02/66] fix: read symlinks written by the original unnumbered
 'meta' version

int('a') was raised for every one of them.
---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 05616de..2872f95 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -460,7 +460,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 120a9b6811612670a4c8cbd096f9cbf04720f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 03/66] fix: refuse error strings that contain the xattr list
 separator

They were read back as more than one error.
---
 augpathlib/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 2872f95..860e908 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -845,6 +845,10 @@ class _EncodeByField:
         return value
 
     def _list(self, value):
+        for v in value:
+            if ';' in v:  # would read back as more than one value
+                raise ValueError(f'Y U DO DIS >:| {v!r}')
+
         return ';'.join(value)
 
     def errors(self, value):
-- 
2.43.0


From f55516843de8b7e380bc577cd7a2a38498da37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 04/66] fix: PathMeta.__getitem__ always returned None

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 860e908..61304e3 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -140,7 +140,7 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
-- 
2.43.0


From 9cd256a57d31ee9c7c0b56d94ced79ed74005866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 05/66] fix: PathMeta could not be copied or pickled

__reduce__ returned a dict where a tuple of arguments is required.
---
 augpathlib/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 61304e3..3d86bcd 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -148,7 +149,8 @@ class PathMeta:
         yield from (k for k in self.__dict__ if not k.startswith('_'))
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        return partial(self.__class__, **kwargs), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From f7db5bf0f2aba864064f9056e0f3e998974ad24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 06/66] fix: PathMeta comparison depended on which timestamps
 had been read

It raised AttributeError or returned False for records with equal fields.
---
 augpathlib/meta.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 3d86bcd..864b3bd 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -158,11 +158,9 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+             # compare fields not attributes, because which of the cached
+             # timestamp attributes is present depends on past accesses
+             return dict(self.items()) == dict(other.items())
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From 5a8c3669cf5af837a55cdf4a05efe498b544f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 07/66] fix: content_different raised TypeError when a
 timestamp is missing

---
 augpathlib/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 864b3bd..22bc2ce 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -123,7 +123,9 @@ class PathMeta:
             return self.checksum != other.checksum
         else:
             return (self.size != other.size or
-                    self.updated < other.updated)
+                    (self.updated is not None and
+                     other.updated is not None and
+                     self.updated < other.updated))
 
     def items(self):
         out = [(k, v) for k, v in self.__dict__.items() if k[0] != '_']  # FIXME nonfields?
-- 
2.43.0


From b4160e4092b3b924a1b45caf8d5fe3cc23752419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 08/66] fix: pretty diff dropped fields that only one record
 has

and raised IndexError if a record was empty.
---
 augpathlib/meta.py | 48 +++++++++-------------------------------------
 1 file changed, 9 insertions(+), 39 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 22bc2ce..aee15ac 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -767,47 +767,17 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
-            keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
-            for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
-                yield l + r
+
+            def index(k):
+                return (self.fields.index(k)
+                        if k in self.fields else
+                        len(self.fields)), k
+
+            # every key that either side has gets a row
+            for k in sorted({**kv, **okv}, key=index):
+                yield kv.get(k, ['', '']) + okv.get(k, ['', ''])
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
         rows = h + list(merge(self.rows(pathmeta, human=human),
-- 
2.43.0


From cf520f06c8db87cc628ef66067db4f49cdc6487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 09/66] fix: an early call to etag.digest corrupted later
 digests

The partial chunk was folded into the state, so the parts after it were
split at the wrong offsets.
---
 augpathlib/utils.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..e3b9c77 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -205,27 +205,17 @@ class etag:
         self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
             chunk = self._remainder
-            self._remainder = bio.read(chunksize)
+            self._remainder = bio.read(self.chunksize)
             if not self._remainder:
                 # the second time around at the end this will break the loop if the chunk
                 # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
+                if len(chunk) < self.chunksize:
                     self._remainder = chunk
                     return
 
@@ -233,23 +223,19 @@ class etag:
                 self._m.update(chunk)  # empty remainder doesn't advance the function
                 digest = self._m.digest()
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                self._parts.append(digest)
 
     def digest(self):
+        # do not change any state in case someone calls an early digest
+        parts = list(self._parts)
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            m = self.cypher()
+            m.update(self._remainder)
+            parts.append(m.digest())
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 4deade1d085cfa52d2dfea06981534119d38cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 10/66] fix: ranged reads of exactly chunksize bytes raised
 UnboundLocalError

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..f2731c5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1323,7 +1323,7 @@ class LocalPath(EatPath, AugmentedPath):
                     if total < chunksize:
                         nchunks = 0
                         last_chunksize = total
-                    elif total > chunksize:
+                    else:
                         nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
-- 
2.43.0


From 74f9b45ac01e1f3955a2007a998b3ac82015b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 11/66] fix: writing from an empty source raised StopIteration

so empty files could not be copied.
---
 augpathlib/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f2731c5..71a8396 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1353,7 +1353,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1363,7 +1363,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1406,7 +1406,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
-- 
2.43.0


From 0e43a15f1be122fbdb884722490ef78af6bcc202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 12/66] fix: _meta_maker with a chunksize called etag without
 it

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 71a8396..1abc342 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1285,7 +1285,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From fc96498eb6218f873928800a413ed342092f9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 13/66] fix: meta had no checksum if meta_no_checksum was
 accessed before it

---
 augpathlib/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 1abc342..50530e9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1239,6 +1239,8 @@ class LocalPath(EatPath, AugmentedPath):
         change_tuple = (fs_metadata_changed_time,
                         fs_data_modified_time) = (st.st_ctime,
                                                   st.st_mtime)
+        # what was asked for has to match as well
+        change_tuple += (checksum, chunksize)
 
         if hasattr(self, '_meta') and self._meta is not None:
             if self.__change_tuple == change_tuple:
-- 
2.43.0


From fa13e4af0cf7cdaf5961d983474c116a8863ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 14/66] fix: LocalPath.created always returned None

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 50530e9..548b5fe 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1187,7 +1187,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
-- 
2.43.0


From d820006fc44ac3a942565dc1014564c4b46afea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 15/66] fix: getxattr masked errors with AttributeError

errno.ENOATTR does not exist on linux.
---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 548b5fe..fb8421a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,7 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 3543a44529c20f327bede3bb38471970a3913577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 16/66] fix: forced copy of a file onto itself truncated it

to the first chunk. Raise SameFileError as shutil does.
---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index fb8421a..6ffb7e2 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1422,6 +1422,10 @@ class LocalPath(EatPath, AugmentedPath):
         if type(target) != type(self):
             target = self.__class__(target)
 
+        if target.exists() and self.samefile(target):
+            # opening target truncates the data that has not been read yet
+            raise shutil.SameFileError(f'{self!r} and {target!r} are the same file')
+
         if not target.exists() and not target.is_symlink() or force:
             target.data = self.data
         else:
-- 
2.43.0


From 8295ce44ced536d230e64007b5c8a329a6a1df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 17/66] fix: atomic swap failed for relative paths

The paths were looked up relative to the files themselves, the error
number was lost, and a descriptor leaked if the second open failed.
---
 augpathlib/swap.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..75abdf6 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,7 +15,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100  # from /usr/include/linux/fcntl.h
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
     rnat2_syscall.restypes = ctypes.c_int       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
@@ -27,15 +28,11 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            raise OSError(ctypes.get_errno(), 'renameat2 failed', self, None, target)
-- 
2.43.0


From c3e2954ad5832cbd00bf87a5c1dde32df99427bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 18/66] fix: swap_carefree lost the target if a rename failed

e.g. because self does not exist, target was left in a temporary folder.
---
 augpathlib/core.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6ffb7e2..4115ba2 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -552,10 +552,21 @@ class AugmentedPath(pathlib.Path):
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            # if any step fails put everything back where it was
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                    try:
+                        temp.rename(self)
+                    except BaseException:
+                        target.rename(self)
+                        raise
+                except BaseException:
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
-- 
2.43.0


From c6b3404f19314b8f0f975c4a838a8a8bf5688d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 19/66] fix: rmtree could be pointed at protected paths via ..
 or symlinks

---
 augpathlib/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 4115ba2..523fcc7 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -667,12 +667,19 @@ class AugmentedPath(pathlib.Path):
 
         if not (DANGERZONE is True):  # prevent python type coersion
             # TODO test in a chroot
-            lenparts = len(self.parts)
+            # check what will actually be removed, there could be .. or
+            # symlinks on the way, a symlink at the end is not followed
+            if self.name == '..':
+                real = pathlib.Path(os.path.realpath(self))
+            else:
+                real = pathlib.Path(os.path.realpath(self.parent), self.name)
+
+            lenparts = len(real.parts)
             if lenparts <= 2:
                 raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
-            elif lenparts <= 3 and 'home' in self.parts:
+            elif lenparts <= 3 and 'home' in real.parts:
                 raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
-            elif self == pathlib.Path.cwd():
+            elif real == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
         try:
-- 
2.43.0


From d278299884d3e84729b1506c113cb0e66098edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 20/66] fix: entering the same path twice lost the original
 directory

and entering a path that is not a directory returned None.
---
 augpathlib/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 523fcc7..0c045f0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -750,16 +750,20 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            entered_from = self.cwd()
             self.chdir()
+            if not hasattr(self, '_entered_from'):
+                self._entered_from = []
+
+            self._entered_from.append(entered_from)
             return self
         else:
-            super().__enter__()
+            return super().__enter__()
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if getattr(self, '_entered_from', None):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 05bea9f2c86754ce88c288b3eb2d5f830825afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 21/66] fix: pushd and popd changed the stack even if they
 failed to change directory

---
 augpathlib/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0c045f0..f3f7f3f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -728,8 +728,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            cwd = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(cwd)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -741,8 +742,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From 280de87e1b636997d78913e9894ea456c4c8be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 22/66] fix: rmtree with onerror raised UnboundLocalError if a
 folder could not be listed

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f3f7f3f..6bafced 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -682,6 +682,7 @@ class AugmentedPath(pathlib.Path):
             elif real == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self  # what onerror reports
         try:
             if self.is_dir():
                 if self.is_symlink():
@@ -717,7 +718,8 @@ class AugmentedPath(pathlib.Path):
         except BaseException as e:
             if not ignore_errors:
                 if onerror is not None:
-                    ftype = 'rmdir' if path.is_dir() else 'unlink'
+                    ftype = ('rmdir' if path.is_dir() and not path.is_symlink()
+                             else 'unlink')
                     func = getattr(path, ftype)
                     onerror(func, path, sys.exc_info())
                 else:
-- 
2.43.0


From b77e8bafab5bf892a2889f4511408e9d5f4bd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 23/66] fix: rmtree stopped early if a symlink could not be
 removed

---
 augpathlib/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6bafced..86d0d6e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -700,7 +700,16 @@ class AugmentedPath(pathlib.Path):
                     if path.is_symlink():
                         # mimic shutil behavior and don't accidentally
                         # recurse through symlinks (keyword being curse)
-                        path.unlink()
+                        try:
+                            path.unlink()
+                        except OSError:
+                            # as for other entries, carry on with the rest
+                            if ignore_errors:
+                                continue
+                            elif onerror is not None:
+                                onerror(path.unlink, path, sys.exc_info())
+                            else:
+                                raise
                     else:
                         path.rmtree(ignore_errors=ignore_errors,
                                     onerror=onerror,
-- 
2.43.0


From dd432a234079c41b44e82d45d9de4fe0164485aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 24/66] fix: leaving a path that was not a folder when entered
 changed directory

---
 augpathlib/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 86d0d6e..bbac3b3 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -762,21 +762,24 @@ class AugmentedPath(pathlib.Path):
             log.warning('popd: directory stack empty')
 
     def __enter__(self):
+        if not hasattr(self, '_entered_from'):
+            self._entered_from = []
+
         if self.is_dir():
             entered_from = self.cwd()
             self.chdir()
-            if not hasattr(self, '_entered_from'):
-                self._entered_from = []
-
             self._entered_from.append(entered_from)
             return self
         else:
-            return super().__enter__()
+            out = super().__enter__()
+            self._entered_from.append(None)
+            return out
 
     def __exit__(self, t, v, tb):
-        if getattr(self, '_entered_from', None):
+        entered_from = self._entered_from.pop()
+        if entered_from is not None:
             # if is_dir fails because of a change still try to return
-            self._entered_from.pop().chdir()
+            entered_from.chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 212aaa1f372dfa381bb15748aecc519586124cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 25/66] fix: merging metadata keeps no empty valued fields of
 the old record

If the content changed, fields the new record lacks were dropped from the
merged record only when they were None, not when they were empty. Errors
recorded for the old content thus stayed attached to the new content.
---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..8796152 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1385,7 +1385,7 @@ class PrimaryCache(CachePath):
                 if k == 'old_id':
                     continue
 
-                if vnew is None:
+                if vnew is None or hasattr(vnew, '__iter__') and not vnew:
                     log.debug(kwargs.pop(k))
 
         #old.updated == new.updated
-- 
2.43.0


From 3bc2a268183302c6c7ab0691690fb9b286433a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 26/66] fix: symlink caches compare records of which only one
 has an updated time

Writing a record over a symlink with a different id raised a TypeError if
only one of the records had an updated timestamp. Follow the rules used for
created: keep the record that has one, refuse to replace the one without.
---
 augpathlib/caches.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 8796152..340db26 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1205,6 +1205,14 @@ class SymlinkCache(_CachePath):
                         log.warning ('no change since either has an updated value (wat)')
                         return #FIXME
 
+                    if pathmeta.updated is None:
+                        log.debug(msg.format('Meta has datetime other does not. Not updating.'))
+                        return
+                    elif meta.updated is None:
+                        msg = msg.format('Meta has no datetime other does.')
+                        log.debug(msg)
+                        raise exc.MetadataIdMismatchError(msg)
+
                     if meta.updated > pathmeta.updated:
                         log.debug(msg.format(meta_newer))
                         return  # this is the right thing to do for a sane filesystem
-- 
2.43.0


From df3d38927942113c652ceecf8c899a50450736db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 27/66] fix: a record that cannot be represented no longer
 displaces a symlink cache

The old symlink was moved to the trash before the new record was converted,
so that a conversion error left no record at the path.
---
 augpathlib/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 340db26..0e0fa75 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1184,6 +1184,9 @@ class SymlinkCache(_CachePath):
     @meta.setter
     def meta(self, pathmeta):
         if not self.exists():
+            # a record that cannot be represented must not displace another
+            symlink = pathmeta.as_symlink(local_name=self.local.name)
+
             # if the path does not exist write even temporary to disk
             if self.is_symlink():
                 meta = self.meta
@@ -1275,7 +1278,6 @@ class SymlinkCache(_CachePath):
             # we need to error if that happens
             #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
             #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
-            symlink = pathmeta.as_symlink(local_name=self.local.name)
             self.local.symlink_to(symlink)
 
         else:
-- 
2.43.0


From 4653e8dbb03578376d1903799040dc3c0351aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 28/66] fix: fields missing from a record no longer keep their
 old value on disk

EatCache wrote the extended attributes of the fields that have a value and
left those of the other fields as they were, so that a stale checksum or
stale errors came back the next time the record was read.
---
 augpathlib/caches.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0e0fa75..dc02c68 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1091,7 +1091,14 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            xattrs = pathmeta.as_xattrs(self.xattr_prefix)
+            self.setxattrs(xattrs)
+            # a value that is no longer there must not come back on read
+            prefix = self.xattr_prefix + '.' if self.xattr_prefix else ''
+            stale = set((prefix + field).encode() for field, _ in pathmeta.items()) - set(xattrs)
+            for key in stale & set(self.xattrs()):
+                self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 94c4a731873d49ca74415c730bb9b9ec1af1bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 29/66] fix: fetching does not lose the record of a file if it
 cannot be moved to xattrs

The symlink that holds the metadata was removed before the extended
attributes were written. If that failed (no space, not supported, too long)
an empty file without metadata was left. Put the symlink back.
---
 augpathlib/caches.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index dc02c68..d270eec 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -894,9 +894,18 @@ class _CachePath(AugmentedPath):
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
             if self.is_broken_symlink():
                 # FIXME touch a temporary file and set the meta first!
+                symlink = self.readlink(raw=True)
                 self.unlink()
-                self.touch()
-                self._meta_setter(meta)
+                try:
+                    self.touch()
+                    self._meta_setter(meta)
+                except BaseException as e:
+                    # the symlink is the only record there is so put it back
+                    if self.local.exists():
+                        self.unlink()
+
+                    self.local.symlink_to(symlink)
+                    raise e
 
             # FIXME I'm 99% certain that our mysterious zero size files are happening here
             # and the error is getting caught and silence somehow
-- 
2.43.0


From a06495ed5cf979d61b1906ea5a813b9ea9e05dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 30/66] fix: crumple returns where the path was actually moved
 to

If the name in the trash was too long the path was moved somewhere else than
where crumple said, so that an update that failed could not be rolled back.
---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index d270eec..043dbb6 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -162,7 +162,8 @@ class _CachePath(AugmentedPath):
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                trashed = self._trashed_path_short
+                self.rename(trashed)
             else:
                 raise e
 
-- 
2.43.0


From c613cc3632925fcd2616521c4b7e9b2032a20f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 31/66] fix: caches can be moved to where the remote is on
 python 3.12

A new type was created for every path object so that the check of the types
of the anchor and the path in move always failed. Create one per class.
---
 augpathlib/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index bbac3b3..9c351b0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -972,8 +972,11 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # there must be only one per class so that the types match
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From c74dd3ba01a37460b8e17483d7b2cab24bdfab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 32/66] fix: moving a cache does not overwrite the metadata or
 data of another one

---
 augpathlib/caches.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 043dbb6..7cd5429 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -950,6 +950,28 @@ class _CachePath(AugmentedPath):
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
+            place = self.anchor.__truediv__(remote, update_meta=False)
+        else:
+            place = target
+
+        # creating the target writes metadata, so before that make sure
+        # that there is nothing that the metadata does not belong to
+        place = self.local_class(place)
+        if (place.absolute() != self.absolute() and
+            (place.is_broken_symlink() or place.exists() and not place.is_dir())):
+            if place.cache is None or place.cache.id != self.id:
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
+
+                if place.is_broken_symlink():
+                    raise exc.WhyDidntThisGetMovedBeforeError(f'\n{place}\n{self}')
+                else:
+                    raise exc.PathExistsError(f'Target {place} already exists!')
+
+        if target is None:
+            if not place.parent.exists():
+                place.parent.mkdir_cache(remote)
+
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
-- 
2.43.0


From de50bff24f33e058e3107fd8b26226ec0bcf1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 33/66] fix: bootstrap is not sparse for an id that is not in
 sparse

---
 augpathlib/caches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7cd5429..5e847d9 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -432,6 +432,8 @@ class _CachePath(AugmentedPath):
                 else:
                     # if you pass the only mask so do your children
                     log.info(f'Bootstrapping {meta.id} -> {self.local!r}')
+                    # sparse only applies to the ids that are in it
+                    sparse = tuple()
 
                 only = tuple()
 
-- 
2.43.0


From 76e22ebfaaab92dd6c11d771a0c1120ec70872dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 34/66] fix: is_sparse works for files that have not been
 fetched

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 9c351b0..e6e8f89 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -991,6 +991,10 @@ class EatPath(EatHelper, AugmentedPath):
             l = self
 
         if l != parent:
+            if l.is_broken_symlink():
+                # there is nothing that could have an attribute of its own
+                return parent._sparse_root()
+
             try:
                 return self.getxattr(self._sparse_key) == b'1'
             except exc.NoStreamError:
-- 
2.43.0


From 65ae3579a3dbde5264f3a6dfbe54070beb3f834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 35/66] fix: without xattrs is_sparse finds the marker instead
 of failing

---
 augpathlib/caches.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5e847d9..b5938ac 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -375,7 +375,10 @@ class _CachePath(AugmentedPath):
                 delattr(self, '_is_sparse_root')
 
     def _sparse_root(self):  # TODO consider SparseHelper
-        return self != self.parent and (self / self._sparse_marker).exists()
+        local = self.local
+        for path in (local, *local.parents):
+            if path != path.parent and (path / self._sparse_marker).exists():
+                return True
 
     def is_sparse(self):
         return self._sparse_root() is not None
-- 
2.43.0


From cb563b6bf6a708d3e154a0a36fb860f26d72c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 36/66] fix: the parts of a cached remote do not include or
 stop at the name of the anchor

---
 augpathlib/remotes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..8f84e2d 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -474,9 +474,8 @@ class RemotePath:
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
-                            break
+                        elif c_parent.id == remote.id:  # names need not be unique
+                            break  # as below remote itself is not included
                         else:
                             parent_names.append(c_parent.name)
 
-- 
2.43.0


From 1b2e10adac1421c0f57b1cbe40b2f8730524b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 37/66] fix: dedupe works for records without updated

---
 augpathlib/caches.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b5938ac..d84ab2d 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -693,14 +693,14 @@ class _CachePath(AugmentedPath):
     def dedupe(self, other, pretend=False):
         # FIXME blackfynn doesn't set update when a folder name changes ??!
         if self.id != other.id:
-            raise ValueError('Can only dedupe when ids match, {self.id} != {other.id}')
+            raise ValueError(f'Can only dedupe when ids match, {self.id} != {other.id}')
 
         su, ou = self.meta.updated, other.meta.updated
         lsu, lou = self.local.meta.updated, other.local.meta.updated
-        if su < ou:
+        if su != ou and (su is None or ou is not None and su < ou):
             old, new = self, other
 
-        elif su > ou:
+        elif su != ou:
             new, old = self, other
 
         elif lsu is None and lou is None:
-- 
2.43.0


From ff5f8d72b9b95b2e79494138a337fb8f6a3cccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 38/66] fix: bootstrap terminates when there is a local folder
 without metadata

---
 augpathlib/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index d84ab2d..998aab5 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -491,12 +491,14 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        local_dirs.discard(d)  # not ours
                         continue
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
                     local_dirs = set(ld for ld in local_dirs
                                      if not ld.as_posix().startswith(d.as_posix()))
-                    old_local = local_dirs - rd
+
+                old_local = local_dirs - rd
 
         if sparse:
             #if local_dirs:
-- 
2.43.0


From 23181221f7ff62e084b057c0405b7288c65b96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 39/66] fix: ssh remotes answer for the name that was asked
 for, and only the applicable permissions count

---
 augpathlib/remotes.py | 38 ++++++++++++++++++++++++++++----------
 augpathlib/utils.py   | 12 ++++++------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 8f84e2d..b84b518 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -813,7 +814,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
 
-        except (PermissionError, FileNotFoundError) as e:
+        except (PermissionError, FileNotFoundError, NotADirectoryError) as e:
             return False
 
         r, w, x = 0x124, 0x92, 0x49
@@ -823,9 +824,15 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        # only one of the classes applies, the owner can have less access than others
+        if st.st_uid == self._uid:
+            cls = u
+        elif st.st_gid in self._gids:
+            cls = g
+        else:
+            cls = e
+
+        return bool(cls & current)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
@@ -845,7 +852,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -855,6 +862,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             yield data
 
         p.communicate()
+        if p.returncode:
+            # what was yielded so far is not all the data
+            raise subprocess.CalledProcessError(p.returncode, cmd)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
@@ -886,10 +896,15 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # via stdin since names with special characters change the output otherwise
+        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
-        hex_ = self._ssh(remote_cmd).decode(self.encoding)
+        out = self._ssh(remote_cmd)
+        if out.endswith(b'Is a directory'):
+            return  # as for local paths
+
+        hex_ = out.decode(self.encoding)
         log.debug(hex_)
         return bytes.fromhex(hex_)
 
@@ -902,7 +917,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {shlex.quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -918,6 +933,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             elif out.endswith(b'No such file or directory'):
                 raise FileNotFoundError(out.decode())
 
+            elif out.endswith(b'Not a directory'):
+                raise NotADirectoryError(out.decode())
+
             else:
                 log.error(remote_cmd)
                 raise ValueError(out) from e
@@ -926,7 +944,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
             return bool(st)  # FIXME
-        except FileNotFoundError:  # FIXME there will be more types here ...
+        except (FileNotFoundError, NotADirectoryError):  # FIXME there will be more types here ...
             pass
 
     @property
@@ -970,7 +988,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
+            remote_cmd = (f"cd {shlex.quote(self.rpath)};"
                           f"{self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
                           f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index e3b9c77..0e7ccd6 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -169,7 +169,7 @@ class StatResult:
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # there may be spaces in the name
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
@@ -179,21 +179,21 @@ class StatResult:
         def ns(hr):
             date, time, zone = hr.split(' ')
             time, ns = time.split('.')
-            return '.' + ns
+            return 1e-9 * int(ns)  # as os.stat, goes up also before the epoch
 
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = int(access) + ns(ha) 
+        self.st_mtime = int(modified) + ns(hm)
+        self.st_ctime = int(changed) + ns(hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = int(birth) + ns(hb)
 
 
 class etag:
-- 
2.43.0


From 82184e23588678ae9abcb6685023563fcb6d1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 40/66] fix: commit of a path leaves stashes that are not its
 own alone, commits removals and puts changes back on errors

---
 augpathlib/repo.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..ace6401 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -305,22 +305,37 @@ class RepoHelper:
 
         if self.repo.active_branch.is_valid(): # handle the empty repo case
             # HAH take that complexity!
+            def stash_ref():
+                return self.repo.git.rev_parse('--quiet', '--verify', 'refs/stash',
+                                               with_exceptions=False)
+
+            old_stash = stash_ref()
             _mes = self.repo.git.stash('push')
+            stashed = stash_ref() != old_stash  # otherwise stash@{0} is not ours
             try:
                 # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
+                if stashed:
+                    try:
+                        self.repo.git.checkout('stash@{0}', '--', self.as_posix())
+                    except self._git.exc.GitCommandError:
+                        # not in the stash, so if it is in HEAD then it was removed
+                        self.repo.git.rm('-q', '-r', '--ignore-unmatch', '--', self.as_posix())
 
                 commit = self.repo.index.commit(message=message,
                                                 author_date=date)
                 return commit
+            except BaseException:
+                if stashed:
+                    # get what came from the stash out of the way of what follows
+                    self.repo.git.reset('--hard', '-q')
+
+                raise
             finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
+                if stashed:
+                    try:
+                        self.repo.git.stash('pop')
+                    except self._git.exc.GitCommandError:
+                        pass
         else:
             try:
                 self.repo.tree()
-- 
2.43.0


From 27f9ed65a07a1c304e8c252b4fcd0cf3aef04c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 41/66] fix: an invalid ref is an InvalidRefError

---
 augpathlib/repo_patch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..d17963d 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
-- 
2.43.0


From 0d3b89d48b9eb17dd4c583e5351bfcbf34fee7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 42/66] fix: commit of a path commits the removal of a renamed
 file and leaves what is staged alone

---
 augpathlib/repo.py | 78 ++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 54 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index ace6401..9e173b5 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,4 +1,5 @@
 import pathlib
+import tempfile
 from urllib.parse import urlparse
 from augpathlib import AugmentedPath
 from augpathlib import exceptions as exc
@@ -143,6 +144,11 @@ class RepoHelper:
 
     path_relative_repo = repo_relative_path
 
+    @property
+    def _pathspec(self):
+        """ only this path, even if there are wildcards in its name """
+        return ':(literal)' + self.repo_relative_path.as_posix()
+
     def _remote_helper(self):
         repo = self.repo
         remote = repo.remote()
@@ -290,60 +296,24 @@ class RepoHelper:
         """ commit from index
             git commit -m {message} --date {date} -- {self}
         """
-        # TODO
-        # use a modified Index.write_tree create an in memory tree
-        # filtering out changed files that are not the current file
-        # during the call to mdb.stream_copy, though it seems like
-        # the internal call to write_tree_from_cache may be writing
-        # all changes and calculating the sha from that so it may
-        # make more sense to try to filter entries instead ...
-        # but that means a blob may still be sitting there and
-        # get incorporated? I may have to use the full list of entries
-        # but sneekily swap out the entries for other changed files for
-        # the unmodified entry for their object, will need to experiment
-
-
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            def stash_ref():
-                return self.repo.git.rev_parse('--quiet', '--verify', 'refs/stash',
-                                               with_exceptions=False)
-
-            old_stash = stash_ref()
-            _mes = self.repo.git.stash('push')
-            stashed = stash_ref() != old_stash  # otherwise stash@{0} is not ours
-            try:
-                # FIXME concurrent modification?!
-                if stashed:
-                    try:
-                        self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                    except self._git.exc.GitCommandError:
-                        # not in the stash, so if it is in HEAD then it was removed
-                        self.repo.git.rm('-q', '-r', '--ignore-unmatch', '--', self.as_posix())
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            except BaseException:
-                if stashed:
-                    # get what came from the stash out of the way of what follows
-                    self.repo.git.reset('--hard', '-q')
-
-                raise
-            finally:
-                if stashed:
-                    try:
-                        self.repo.git.stash('pop')
-                    except self._git.exc.GitCommandError:
-                        pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        # an index with only the changes to this path, so that there
+        # is no need to touch other changes or the working tree
+        repo = self.repo
+        path = self._pathspec
+        names = repo.git.ls_files('-z', '--', path).split('\0')
+        with tempfile.TemporaryDirectory() as td:
+            index_file = (pathlib.Path(td) / 'index').as_posix()
+            with repo.git.custom_environment(GIT_INDEX_FILE=index_file):
+                repo.git.read_tree('HEAD' if repo.head.is_valid() else '--empty')
+                names.extend(repo.git.ls_files('-z', '--', path).split('\0'))
+                update = '--add', '--remove', '--', *sorted(set(n for n in names if n))
+                repo.git.update_index(*update)
+
+            commit = self._git.IndexFile(repo, index_file).commit(message=message,
+                                                                  author_date=date)
+
+        repo.git.update_index(*update)
+        return commit
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 1dc5fa6afa7a349215e5ce6f27b37de88a73d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 43/66] fix: wildcards in the names of files in a repo,
 removals, and the last newline of what is shown

---
 augpathlib/repo.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 9e173b5..d864c1e 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,3 +1,4 @@
+import io
 import pathlib
 import tempfile
 from urllib.parse import urlparse
@@ -209,7 +210,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=':(literal)' + self.expanduser().resolve().as_posix(),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -217,7 +218,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=':(literal)' + self.expanduser().resolve().as_posix(),
             # TODO --follow
             max_count=max_count)
 
@@ -243,7 +244,7 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        list_ = this.diff(other=other, paths=self._pathspec, create_patch=create_patch)
         if list_:
             return list_[0]
 
@@ -290,7 +291,8 @@ class RepoHelper:
         # because they are testing with strings
         # so we use repo_relative_path to avoid the broken
         # _to_relative_path in GitPython
-        self.repo.index.add([self.repo_relative_path.as_posix()])
+        # and git add since index.add does not know about removals
+        self.repo.git.add('--force', '--', self._pathspec)
 
     def commit(self, message, *, date=None):
         """ commit from index
@@ -332,8 +334,10 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            buffer = io.BytesIO()
+            self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+                               output_stream=buffer)  # exactly what is there
+            return buffer.getvalue()
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From 4d1dee0350c0aa604a32fbe10c0d5ca22b807e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 44/66] fix: changes made inside the context of a ref that are
 the same as those before it

---
 augpathlib/repo_patch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index d17963d..42c4811 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -72,7 +72,9 @@ class _Reference(git.Reference):
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
+        # always stash on the way out as well
+        # a message so that it cannot be the same stash as the one from the way in
+        _stash = self.repo.git.stash('push', '--all', '-m', f'changes made while on {self.name}')
         if _stash == 'No local changes to save':
             stash = 'stash@{0}'
         else:
-- 
2.43.0


From f6864ad6c74e0c043b5558243e014246f4a532b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 45/66] fix: currentRefName of annotated tags and of commits
 before a tag

---
 augpathlib/repo_patch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index 42c4811..98fc084 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -21,14 +21,17 @@ class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
                 ref_name = ref_name[0]
                 if '/' in ref_name:
                     tags, tag_name = ref_name.split('/', 1)
-                    if tags == 'tags':
-                        return tag_name
-                    elif '~' in tag_name:
+                    if tags == 'tags' and tag_name.endswith('^0'):
+                        tag_name = tag_name[:-2]  # the commit of an annotated tag
+
+                    if '~' in tag_name or '^' in tag_name:
                         # these refs are unstable because they count
                         # backward from the first named ref that
                         # occures after them in the tree, better to
                         # use the hexsha in those cases
                         return None
+                    elif tags == 'tags':
+                        return tag_name
                     else:
                         return ref_name
                 else:
-- 
2.43.0


From 35b851a19af18f410667865a101532e19b46e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 46/66] fix: names of repositories with dots, ssh urls, and
 paths with .. in them

---
 augpathlib/repo.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index d864c1e..51c9727 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -31,13 +31,22 @@ class RepoHelper:
         RepoHelper._git = git
         RepoHelper._repo_class = Repo
 
+    @staticmethod
+    def _repo_name(remote):
+        """ the last part of a url or path without .git as git does it """
+        name = remote.rstrip('/')
+        if name.endswith('/.git'):
+            name = name[:-len('/.git')].rstrip('/')
+
+        name = name.rpartition('/')[-1].rpartition(':')[-1]
+        return name[:-len('.git')] if name.endswith('.git') else name
+
     def clone_path(self, remote):
         """ get the path to which a repo would clone
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
-        return self / name
+        return self / self._repo_name(str(remote))
 
     def clone_from(self, remote, *, depth=None):
         """ clone_from uses the path of the current object as the
@@ -115,7 +124,11 @@ class RepoHelper:
         # https://github.com/git/git/blob/master/setup.c#L903
         # https://github.com/git/git/blob/08da6496b61341ec45eac36afcc8f94242763468/setup.c#L584
         # https://github.com/git/git/blob/bc12974a897308fd3254cf0cc90319078fe45eea/setup.c#L300
-        if (self / '.git').exists():
+        if '..' in self.parts:
+            # the parent of such a path is not the folder it is in
+            return self.expanduser().resolve().working_dir
+
+        elif (self / '.git').exists():
             if not self.is_absolute():
                 # avoid cases where RepoPath('.') gets put in the repos cache
                 return self.expanduser().absolute()
@@ -136,7 +149,9 @@ class RepoHelper:
         """ working directory relative path """
         repo = self.repo
         if repo is not None:
-            if not self.is_absolute():
+            if '..' in self.parts:
+                path = self.expanduser().resolve()
+            elif not self.is_absolute():
                 path = self.expanduser().absolute()
             else:
                 path = self
@@ -156,16 +171,15 @@ class RepoHelper:
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
         if url_base.startswith('git@'):
-            url_base = 'ssh://' + url_base
+            url_base = 'ssh://' + url_base.replace(':', '/', 1)
 
         pu = urlparse(url_base)
         netloc = pu.netloc
         path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
+        if netloc.startswith('git@') and pu.hostname == 'github.com':
             netloc = 'github.com'
-            path = '/' + group + path
 
+        path = '/'.join((path.rstrip('/').rpartition('/')[0], self._repo_name(path)))
         return repo, rnprefix, url_base, netloc, path
 
     def _remote_uri(self, prefix, infix=None, ref=None):
@@ -183,9 +197,9 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
             return prefix + rpath.as_posix()
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
@@ -197,7 +211,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(path)
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From bc4b8baeba11cd0f86b0342ebd5a004903fbab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 47/66] fix: indexed, and diff from a commit to the index

---
 augpathlib/repo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 51c9727..adaddd5 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -258,7 +258,16 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self._pathspec, create_patch=create_patch)
+        kwargs = {}
+        if isinstance(other, self._git.IndexFile):
+            if isinstance(this, self._git.IndexFile):
+                return
+
+            # a commit cannot be asked for the difference to an index file
+            this, other = other, this
+            kwargs['R'] = True
+
+        list_ = this.diff(other=other, paths=self._pathspec, create_patch=create_patch, **kwargs)
         if list_:
             return list_[0]
 
-- 
2.43.0


From a6f2e16f0fd430f9310b6583390b0ba13e0eb308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 48/66] fix: show of a file that is not there and has wildcards
 in its name

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index adaddd5..010bcbc 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -358,7 +358,7 @@ class RepoHelper:
                 return f.read()
         else:
             buffer = io.BytesIO()
-            self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+            self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(), '--',
                                output_stream=buffer)  # exactly what is there
             return buffer.getvalue()
 
-- 
2.43.0


From 28e276d6f83a3590abcd6d7326ef1afbfcadcafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 49/66] fix: changes are put back if a ref cannot be checked
 out

---
 augpathlib/repo_patch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index 98fc084..f0caea0 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -71,7 +71,14 @@ class _Reference(git.Reference):
         if self == self.__original_branch:
             return self
 
-        self.checkout()
+        try:
+            self.checkout()
+        except BaseException:  # e.g. a tag, there will be no __exit__
+            if self.__stash is not None:
+                self.repo.git.stash('pop')
+
+            raise
+
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-- 
2.43.0


From fe5e9695c83c71520e33046992bec1684d188847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 50/66] fix: next versions of short and of local versions, tags
 of packages whose name is the start of another

---
 augpathlib/package.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..053b7a7 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -107,9 +107,10 @@ def cons_next(d, ver, next):
     elif next in ('release', 'major', 'minor', 'micro'):
         # FIXME this incorrect?
         release = d['release']
+        ncomp = dict(release=1, major=1, minor=2, micro=3)[next]
+        release = (*release, *[0 for _ in range(ncomp - len(release))])
         if next == 'release':
             release = (*release[:-1], vinc(release[-1]))
-        # FIXME index error or extent shorter version to that?
         elif next == 'major':
             release = vinc(release[0]), *[0 for _ in release[1:]]
         elif next == 'minor':
@@ -121,7 +122,11 @@ def cons_next(d, ver, next):
         d['release'] = tuple(release)
     elif next == 'local':
         d.update(ver._version._asdict())
-        d['local'] = vinc(ver.local),
+        local = ver._version.local or ()
+        if local and not isinstance(local[-1], str):
+            d['local'] = vinc(local)
+        else:
+            d['local'] = (*local, vinc(None))
     elif next is None:
         # FIXME this fails if you want to bump the release to go from release to dev
         # e.g. 0.1.27 -> 0.1.27.dev0 which is not a valid transition
@@ -275,9 +280,12 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                prefix = self.arg_packagename + '-'
             else:
-                these = [r for r in gj if r['tag_name'][0] in '0123456789']
+                prefix = ''
+
+            these = [r for r in gj if r['tag_name'].startswith(prefix) and
+                     r['tag_name'][len(prefix):][:1] in tuple('0123456789')]
 
             if these:
                 latest = these[0]
@@ -314,7 +322,7 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
-- 
2.43.0


From 5c04ba41fc57f3fee7faa98eb3a78bd1d1eeb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 51/66] fix: children of the anchor left out names that are an
 ignored one with a suffix

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index e6e8f89..285f193 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1501,7 +1501,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From cac894262fbb7ff9de722cd8385f45946cd8bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 52/66] fix: rchildren of the anchor went through symlinks to
 folders

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 285f193..a0d0673 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1518,7 +1518,8 @@ class LocalPath(EatPath, AugmentedPath):
             self == self.cache.anchor.local):
             for path in self.children:
                 yield path
-                yield from path.rchildren
+                if not path.is_symlink():  # as in rglob
+                    yield from path.rchildren
 
         else:
             yield from self.rglob('*')
-- 
2.43.0


From 4c688b6e9632d04102c3ff6dab49ca3cf09e987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 53/66] fix: mkdir_remote outside of any cache did nothing
 silently

---
 augpathlib/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a0d0673..5a31275 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1154,7 +1154,6 @@ class LocalPath(EatPath, AugmentedPath):
                 if c:
                     parts = self.relative_path_from(parent).parts
                     for p in parts:
-                        print(self, parent, parts, p)
                         remote = parent.cache.remote._mkdir_child(p)
                         local = parent / p
                         local.mkdir(exist_ok=True)
@@ -1166,8 +1165,10 @@ class LocalPath(EatPath, AugmentedPath):
 
                     remote._cache = local.cache
                     return remote
+
+            raise FileNotFoundError(f'no parent of {self} has a cache')
         else:
-            raise FileNotFoundError('missing parent for {self} and parents=False')
+            raise FileNotFoundError(f'missing parent for {self} and parents=False')
 
     def find_cache_root(self, fail=False):
         """ find the local root of the cache tree, even if we start with skips """
-- 
2.43.0


From 2819f4d13c8f4bb3739d6703745975eade359f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 54/66] fix: validate_file could not record a mismatch

---
 augpathlib/caches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 998aab5..4ac24b4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -622,8 +622,10 @@ class _CachePath(AugmentedPath):
                 msg = f'Checksums do not match!\n(!=\n{lc.hex()}\n{cc.hex()}\n)'
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
-                nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                if 'checksum-mismatch' not in meta.errors:
+                    nmeta['errors'] = (*meta.errors, 'checksum-mismatch')
+                    self._meta_setter(meta.__class__(**nmeta))
+
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From 92f5833a4cadb53f6a4d59e2456aeb6561be825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 55/66] fix: ZipPath of what is not an archive, or is not there

---
 augpathlib/zip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..c3881a5 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -121,8 +121,10 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+
+        return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
@@ -158,7 +160,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if pzp is None and zipfile.is_zipfile(self):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
-- 
2.43.0


From 8be59eae4c373bbbaf9254bd39daf4c4d72a0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 56/66] fix: paths inside of a zip that are not there were
 folders, their data a BaseException

---
 augpathlib/zip.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index c3881a5..04f5d61 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -22,7 +22,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
         paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
-        parents = set(parent for path in paths for parent in path.parents)
+        parents = set(parent for path in paths for parent in path.parents) | {zipath('.')}
         zipath._paths = {p:p for p in parents | paths}
         return zipath
 
@@ -73,7 +73,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,7 +83,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
@@ -101,16 +103,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From a3d13e293ac28958b4ffc8cb50ed57279d9e61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 57/66] fix: relative paths to different zips were mixed up

---
 augpathlib/zip.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 04f5d61..d29b92f 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -128,11 +128,14 @@ class ZipHelper:
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is None:
+            return
 
-        return self._zfc_cache.get(zp, None)
+        key = zp.absolute()  # relative paths may be of another folder later
+        if key not in self._zfc_cache:
+            self._zfc_cache[key] = ZipInternalPath._new(zp)
+
+        return self._zfc_cache[key]
 
     @property
     def zip_relative_path(self):
-- 
2.43.0


From 418c9e06b87524d93e3ca08b305f66f21a5f840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 58/66] fix: smartAnchor anchored to folders with the record of
 another root

---
 augpathlib/remotes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b84b518..f5dceb4 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -149,14 +149,12 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            return cls.anchorToCache(path.cache)  # fails if it is of another root
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                return cls.anchorToCache(path.cache)  # fails if it is of another root
             else:
                 raise e
 
-- 
2.43.0


From 7e2c818125afcf032d831fdc74834ec251f706ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 59/66] fix: anchorTo a path with another name was an
 AttributeError

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index f5dceb4..fc3782c 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -114,7 +114,7 @@ class RemotePath:
                     # unlike git you cannot clone to a folder with a different
                     # name (for now ... maybe can figure out how in the future)
                     raise ValueError('Path name and root name do not match.'
-                                     f'{path.name} != {cls.root.name}')
+                                     f'{path.name} != {root.name}')
 
                 if create:
                     return cls.dropAnchor(path.parent)  # existing folder dealt with in dropAnchor
-- 
2.43.0


From 1e85d6d02ecc44e3c3e8afb8d776307fed65391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 60/66] fix: dropAnchor gave a file the record of the root
 before it failed

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index fc3782c..2741ed9 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -181,6 +181,9 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
+            elif not path.is_dir():
+                raise NotADirectoryError(f'not a folder {path}')
+
             elif list(path.children):
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
-- 
2.43.0


From 7b03223399ba097578d6a500b8769906f07c05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:29 +0000
Subject: [PATCH 61/66] fix: crumple overwrote what was already in the trash

---
 augpathlib/caches.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 4ac24b4..92f8506 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -157,12 +157,23 @@ class _CachePath(AugmentedPath):
             # need to catch that here and create them
             tp.mkdir(parents=True)
 
+        def unused(path):
+            # rename overwrites, and there may be something in the trash already
+            # for this id, for one with the same safe id, or for this name
+            new, n = path, 0
+            while new.is_symlink() or new.exists():
+                n += 1
+                new = path.with_name(f'{path.name}-{n}')
+
+            return new
+
         try:
+            trashed = unused(trashed)
             self.rename(trashed)
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                trashed = self._trashed_path_short
+                trashed = unused(self._trashed_path_short)
                 self.rename(trashed)
             else:
                 raise e
-- 
2.43.0


From 7d8fa7686181eba16ff77f114d92353879fec468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 62/66] fix: a symlink under another name in a lower case
 folder opened the debugger

---
 augpathlib/meta.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index aee15ac..3ba8401 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -445,9 +445,9 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
+            _p = symlink_path.as_posix()
+            l = pathlib.Path(_p.lower()).parent
+            u = pathlib.Path(_p.upper()).parent
             if l.exists() and u.exists():
                 breakpoint()
                 # You've been hit by a case insenstivie file system!
-- 
2.43.0


From 604878cf8cec7a957a113bc893ac2cf2c2e54738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 63/66] fix: init of a path that does not exist inside a
 repository was an AssertionError

---
 augpathlib/repo.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 010bcbc..500ac60 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -87,13 +87,8 @@ class RepoHelper:
             repo = None
 
         if repo is not None:
-            if not self.exists():
-                msg = f'how!? {self!r} != {repo.working_dir}'
-                assert repo.working_dir == self.as_posix(), msg
-                log.warning(f'stale cache on deleted repo {self!r}')
-                self._repos.pop(self)
-            else:
-                raise exc.RepoExistsError(f'{repo}')
+            # also if self does not exist but would be inside of it
+            raise exc.RepoExistsError(f'{repo}')
 
         if remote is not None:
             if isinstance(remote, pathlib.Path):
-- 
2.43.0


From 8c7de7b455e8d86efce8410e466c448681320cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 64/66] fix: init of a relative path did not replace the repo
 of one that was deleted

---
 augpathlib/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 500ac60..02edd7e 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -98,7 +98,8 @@ class RepoHelper:
         else:
             repo = self._repo_class.init(self)
 
-        self._repos[self] = repo
+        # use the same key as self.repo otherwise it could return a stale repo
+        self._repos[self.working_dir] = repo
         return repo
 
     @property
-- 
2.43.0


From aeec4ff16311a103c6be586877b3e23ee267c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 65/66] fix: commits_since_last_release was empty for a package
 without a tag

---
 augpathlib/package.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 053b7a7..465afb7 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -391,10 +391,10 @@ class PackagePath(RepoPath):
             print(e)
             rfs = [self.folder]
 
-        _tag = self.tag
-        tag = _tag if _tag else ''
+        tag = self.tag
+        # ..HEAD without a tag is HEAD..HEAD
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                f'{tag}..HEAD' if tag else 'HEAD',
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 3a44c5e5826f3db7c12d7f46186e55c24a680e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 66/66] fix: cache_init with parents raised CacheExistsError or
 made a folder without metadata

---
 augpathlib/remotes.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 2741ed9..25178c1 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -291,19 +291,14 @@ class RemotePath:
             return NullCache()
 
     def cache_init(self, parents=False):
-        try:
-            return self._cache_anchor / self
-        except FileNotFoundError:
-            if parents:
-                #parent, *rest = self.parent.cache_init(parents=parents)
-                #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
-                return self.cache_init()
-            else:
-                raise
+        if parents:
+            # the parents have to be first because a file makes the folder it
+            # is in if that does not exist, and does so without any metadata
+            parent = self.parent
+            if parent is not None and parent.id != self._cache_anchor.id:
+                parent.cache_init(parents=parents)
+
+        return self._cache_anchor / self
 
     @property
     def _cache(self):
-- 
2.43.0

