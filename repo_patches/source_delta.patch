From 08c5cb072fa7fb4e6f9dc2e64779f85eebe47f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 01/42] fix: write the column format count as the int16 that is
 read back

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..b5428e3 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
-- 
2.43.0


From a3aef62306b91ac27a41754f172cd4fb21cebd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 02/42] fix: write the user placed flag as a bool

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index b5428e3..c5d3fce 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -334,7 +334,7 @@ class Bin(core.AVBObject):
              ctx.write_s16(f, bin_obj.x)
              ctx.write_s16(f, bin_obj.y)
              ctx.write_s32(f, bin_obj.keyframe)
-             ctx.write_u8(f, bin_obj.user_placed)
+             ctx.write_bool(f, bin_obj.user_placed)
 
         ctx.write_s32(f, self.display_mask)
         ctx.write_s16(f, self.display_mode)
-- 
2.43.0


From 7a48dafec199fb2f5b78c6d4b3fa748c6d6f88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 03/42] fix: write MPGA sub frame alignment unsigned, as it is
 read

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..c9bbf49 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From d93cb0ce6f372e1b14beb9db2ec31edddf41ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 04/42] fix: AudioSuite mob id words are unsigned

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..32b63af 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From 05ab80969772611ff91860df8c957463022b14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 05/42] fix: a bin reference read without a utf-8 name can be
 saved

---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From f9d2ee3cebc100d41b3d2d1b7ff8c540cd3d1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 06/42] fix: reference lists did not clear, sort, reverse or
 track in-place operators

---
 src/avb/core.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..cee7890 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -99,17 +99,27 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__setitem__(slice(None), [])
         self.mark_modified()
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
+        items = sorted(self, key=key, reverse=reverse)
+        super(AVBRefList, self).__setitem__(slice(None), items)
         self.mark_modified()
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
+    def __iadd__(self, x):
+        self.extend(x)
+        return self
+
+    def __imul__(self, n):
+        result = super(AVBRefList, self).__imul__(n)
+        self.mark_modified()
+        return result
+
     def deref(self, value):
         if isinstance(value, INT_FORMAT):
             return utils.AVBObjectRef(self.root, value).value
-- 
2.43.0


From 6b737a8a8e9e96c26ee6d1f881d8613b6ca7523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 07/42] fix: doubles in big endian files are big endian

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..35fac2d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From 2c5939189bc06685f51db32b5d6dd2d28790ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 08/42] fix: Attributes.popitem marks the attributes modified

---
 src/avb/attributes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..e171209 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -50,6 +50,11 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        result = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return result
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-- 
2.43.0


From aeca127d8e6c9e5396dc96cd2bec1825e665527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 09/42] fix: bezier_interpolate used an undefined name for
 degenerate segments

---
 src/avb/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..49567a8 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
-- 
2.43.0


From 2fdf4766a2cc20db2ead41201945159038808b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 10/42] fix: the unknown value type error named a missing
 attribute

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..2446c8b 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -638,7 +638,7 @@ class ParamClip(Clip):
             elif self.value_type == CP_TYPE_REFERENCE:
                 ctx.write_object_ref(self.root, f, cp.value)
             else:
-                raise ValueError("unknown value type: %d" % cp.value_type)
+                raise ValueError("unknown value type: %d" % self.value_type)
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
-- 
2.43.0


From 21f0246751203a3fb24188e03e05b1237351c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 11/42] fix: raise on an unknown mob type

---
 src/avb/trackgroups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 32b63af..8030763 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 35c7964c6adafc06894d650fb158aadede339e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 12/42] fix: Composition uses the name it is given

---
 src/avb/trackgroups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8030763..c139ba9 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1038,7 +1038,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
-- 
2.43.0


From 02231bb4cd75bd520f8b4ad3671ec64fa7fb1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 13/42] fix: a factory method held or used in nested calls
 creates its own class

---
 src/avb/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..9136f15 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -6,6 +6,7 @@ from __future__ import (
     )
 
 import datetime
+import functools
 
 import struct
 import io
@@ -58,11 +59,9 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return functools.partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -84,9 +83,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 82281bc4a5696ddec5ea5f1953c0a5232acbe386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 14/42] fix: a failed save no longer truncates the target file

---
 src/avb/file.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 9136f15..7a00852 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -347,21 +347,26 @@ class AVBFile(object):
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
         try:
-            with io.open(path, 'wb') as f:
-                count_pos = self.write_header(f)
-                for obj in walk_references(self.content):
-                    if obj.instance_id in self.ref_mapping:
-                        continue
-
-                    self.next_chunk_id += 1
-                    self.ref_mapping[obj.instance_id] = self.next_chunk_id
-                    self.write_object(f, obj)
-
-                pos = f.tell()
-                f.seek(count_pos)
-                ctx.write_u32(f, self.next_chunk_id)
-                ctx.write_u32(f, self.next_chunk_id)
-                f.seek(pos)
+            # build the file in memory, so that an object that cannot be
+            # written does not leave a truncated file behind
+            f = io.BytesIO()
+            count_pos = self.write_header(f)
+            for obj in walk_references(self.content):
+                if obj.instance_id in self.ref_mapping:
+                    continue
+
+                self.next_chunk_id += 1
+                self.ref_mapping[obj.instance_id] = self.next_chunk_id
+                self.write_object(f, obj)
+
+            pos = f.tell()
+            f.seek(count_pos)
+            ctx.write_u32(f, self.next_chunk_id)
+            ctx.write_u32(f, self.next_chunk_id)
+            f.seek(pos)
+
+            with io.open(path, 'wb') as out:
+                out.write(f.getvalue())
         finally:
             self.octx = None
 
-- 
2.43.0


From 9206e363c261469bdf47febbc04e5d68fe4d6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 15/42] fix: refuse an object of another file even when its id
 is already taken

---
 src/avb/file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index 7a00852..92dc33b 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -352,6 +352,8 @@ class AVBFile(object):
             f = io.BytesIO()
             count_pos = self.write_header(f)
             for obj in walk_references(self.content):
+                if obj.root is not self:
+                    raise ValueError("object is from different file: " + str(obj))
                 if obj.instance_id in self.ref_mapping:
                     continue
 
-- 
2.43.0


From d591c5a088fb15360a3de588ef6cbabb98cf5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 16/42] fix: close the file that was opened when its header
 cannot be read

---
 src/avb/file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index 92dc33b..623e175 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -119,6 +119,14 @@ class AVBFile(object):
         else:
             self.f = io.open(fileobject, 'rb', buffering=buffering)
 
+        try:
+            self.read_header(use_ext)
+        except:
+            if self.f is not fileobject:
+                self.f.close()
+            raise
+
+    def read_header(self, use_ext):
         f = self.f
         file_bytes = f.read(2)
         self.fast_readers = {}
-- 
2.43.0


From 82b04f3526873b122d23a32207073c4a6cf937d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 17/42] fix: new objects do not share mutable default values

---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index c5d3fce..be97d29 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend(dict(d) for d in default_bin_columns)
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index cee7890..1437cd8 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 from . import utils
@@ -189,7 +190,8 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            # a default can be mutable, it must not be shared
+            self.__setattr__(pdef.name, copy.deepcopy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From f3987296cd19f59a552daf0db05f39480c469969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 18/42] fix: a copied object is complete and independent of the
 original

---
 src/avb/attributes.py |  4 +++-
 src/avb/core.py       | 31 +++++++++++++------------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index e171209..5e30e55 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -58,7 +58,9 @@ class Attributes(AVBPropertyData):
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-            if isinstance(value, int):
+            if value is None:
+                obj[key] = value
+            elif isinstance(value, int):
                 obj[key] = value
             elif isinstance(value, unicode):
                 obj[key] = value
diff --git a/src/avb/core.py b/src/avb/core.py
index 1437cd8..dace815 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -75,7 +75,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -144,6 +144,13 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    if isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    return copy.deepcopy(value)
+
 def walk_references(obj):
 
     if isinstance(obj, list):
@@ -232,24 +239,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # only what this object has, not what a new object starts out with
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 85ee38bf5f19bf5d8b3f0e1d34334ae88efe3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 19/42] fix: an AudioSuite plug-in can be created and copied

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index c139ba9..7c8b39c 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__()
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From 0dbe6c4d636462804eaa5b9f9db74ea8e576df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 20/42] fix: dependant_mobs does not loop forever on mobs
 referring to each other

---
 src/avb/trackgroups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 7c8b39c..515aa35 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -231,10 +231,13 @@ class TrackGroup(Component):
         """
 
         visited = set()
+        # mobs whose references were followed, a mob can end up referring to itself
+        expanded = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
+            expanded.add(mob.mob_id)
             children_processed = True
 
             for obj in walk_references(mob):
@@ -242,7 +245,7 @@ class TrackGroup(Component):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in expanded:
                         stack.append(ref_mob)
                         children_processed = False
 
-- 
2.43.0


From a1a3fddef79e75e0b7ea3d34b81585447a280480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 21/42] fix: a property definition keeps its long name

---
 src/avb/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index dace815..a991e2c 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -20,7 +20,7 @@ class AVBPropertyDef(object):
     __slots__ = ('name', 'long_name', 'type', 'default')
     def __init__(self, name, long_name, data_type, default_value=sentinel):
         self.name = name
-        self.long_name = name
+        self.long_name = long_name
         self.type = data_type
         self.default = default_value
     def __repr__(self):
-- 
2.43.0


From fd41176260eb535f865b129c7a1c617b0f23e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 22/42] fix: integrate_iter handles ranges of one frame or none

---
 src/avb/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 49567a8..3bfd816 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -288,7 +288,11 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
+    if end <= start:
+        return
+
     pos = 0
+    t = start - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-- 
2.43.0


From 2ec11eb68d2bfa6db2902e2bef13912cd80ab77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 23/42] fix: refuse a string whose length would be read back as
 empty

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 35fac2d..c29c2dc 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -170,6 +170,9 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # 65535 is read back as an empty string
+        if size >= 65535:
+            raise ValueError("string too long: %d bytes" % size)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From 156e903da97a14a2d66a66224d4ec52e491ac701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 24/42] fix: only 59.94 is remapped to the values in seen files

---
 src/avb/ioctx.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index c29c2dc..27fcbdb 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -14,7 +14,7 @@ from .utils import AVBObjectRef
 from .mobid import MobID
 
 exp10_pretty = {
-5994: (59940, -3),
+(5994, -2): (59940, -3),
 }
 
 class AVBIOContext(object):
@@ -142,9 +142,10 @@ class AVBIOContext(object):
             exponent -= 1
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
+        if (value, exponent) in exp10_pretty:
+            pretty = exp10_pretty[(value, exponent)]
+            self.write_s32(f, pretty[0])
+            self.write_s16(f, pretty[1])
         else:
             self.write_s32(f, int(value))
             self.write_s16(f, exponent)
-- 
2.43.0


From b042498bdc848a5609f4ea5add1e645c11c73249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 25/42] fix: Attributes.move_to_end marks the attributes
 modified

---
 src/avb/attributes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 5e30e55..122e4f4 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -55,6 +55,10 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-- 
2.43.0


From 39f297e4f0b87259e530aafb2ebd8ca98d8f01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 26/42] fix: give each essence descriptor its own table of
 accepted properties

---
 src/avb/essence.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index c9bbf49..b719864 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -100,6 +100,7 @@ class MediaDescriptor(core.AVBObject):
 @utils.register_class
 class TapeDescriptor(MediaDescriptor):
     class_id = b'MDTP'
+    propertydefs_dict = {}
     propertydefs = MediaDescriptor.propertydefs + [
         AVBPropertyDef('cframe', 'OMFI:MDTP:CFrame', "int16",  0)
     ]
@@ -126,6 +127,7 @@ class TapeDescriptor(MediaDescriptor):
 @utils.register_class
 class FilmDescriptor(MediaDescriptor):
     class_id = b'MDFM'
+    propertydefs_dict = {}
     __slots__ = ()
 
     def read(self, f):
@@ -146,6 +148,7 @@ class FilmDescriptor(MediaDescriptor):
 @utils.register_class
 class NagraDescriptor(MediaDescriptor):
     class_id = b'MDNG'
+    propertydefs_dict = {}
     __slots__ = ()
 
     def read(self, f):
@@ -166,6 +169,7 @@ class NagraDescriptor(MediaDescriptor):
 @utils.register_class
 class MediaFileDescriptor(MediaDescriptor):
     class_id = b'MDFL'
+    propertydefs_dict = {}
     propertydefs = MediaDescriptor.propertydefs + [
         AVBPropertyDef('edit_rate',   'EdRate',               'fexp10', 25),
         AVBPropertyDef('length',      'OMFI:MDFL:Length',     'int32',   0),
@@ -205,6 +209,7 @@ class MediaFileDescriptor(MediaDescriptor):
 @utils.register_class
 class MultiDescriptor(MediaFileDescriptor):
     class_id = b'MULD'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('descriptors', 'OMFI:MULD:Descriptors', "ref_list"),
     ]
@@ -240,6 +245,7 @@ class MultiDescriptor(MediaFileDescriptor):
 @utils.register_class
 class WaveDescriptor(MediaFileDescriptor):
     class_id = b'WAVE'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('summary',   'OMFI:WAVD:Summary',   'bytes'),
     ]
@@ -272,6 +278,7 @@ class WaveDescriptor(MediaFileDescriptor):
 @utils.register_class
 class AIFCDescriptor(MediaFileDescriptor):
     class_id = b'AIFC'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('summary',   'OMFI:AIFD:Summary',   'bytes'),
         AVBPropertyDef('data_pos',  'OMFI:AIFD:MC:DataPos', 'int32'),
@@ -320,6 +327,7 @@ class AIFCDescriptor(MediaFileDescriptor):
 @utils.register_class
 class PCMADescriptor(MediaFileDescriptor):
     class_id = b'PCMA'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('channels',                    'OMFI:MDAU:NumChannels',               'uint16'),
         AVBPropertyDef('quantization_bits',           'OMFI:MDAU:BitsPerSample',             'uint16'),
@@ -439,6 +447,7 @@ class PCMADescriptor(MediaFileDescriptor):
 @utils.register_class
 class MPGADescriptor(MediaFileDescriptor):
     class_id = b'MPGA'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('channels',                    'OMFI:MDAU:NumChannels',               'uint16'),
         AVBPropertyDef('quantization_bits',           'OMFI:MDAU:BitsPerSample',             'uint16'),
@@ -520,6 +529,7 @@ class MPGADescriptor(MediaFileDescriptor):
 @utils.register_class
 class DIDDescriptor(MediaFileDescriptor):
     class_id = b'DIDD'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef('stored_height',              'OMFI:DIDD:StoredHeight',                            'int32',    1080),
         AVBPropertyDef('stored_width',               'OMFI:DIDD:StoredWidth',                             'int32',    1920),
@@ -985,6 +995,7 @@ class DIDDescriptor(MediaFileDescriptor):
 @utils.register_class
 class CDCIDescriptor(DIDDescriptor):
     class_id = b'CDCI'
+    propertydefs_dict = {}
     propertydefs = DIDDescriptor.propertydefs + [
         AVBPropertyDef('horizontal_subsampling', 'OMFI:CDCI:HorizontalSubsampling',         'uint32',   2),
         AVBPropertyDef('vertical_subsampling',   'OMFI:CDCI:VerticalSubsampling',           'uint32',   1),
@@ -1065,6 +1076,7 @@ class CDCIDescriptor(DIDDescriptor):
 @utils.register_class
 class MPGIDescriptor(CDCIDescriptor):
     class_id = b'MPGI'
+    propertydefs_dict = {}
     propertydefs = CDCIDescriptor.propertydefs + [
         AVBPropertyDef('mpeg_version',     "OMFI:MPGI:MPEGVersion",        "uint8"),
         AVBPropertyDef('profile',          "OMFI:MPGI:ProfileAndLevel",    "uint8"),
@@ -1123,6 +1135,7 @@ class MPGIDescriptor(CDCIDescriptor):
 @utils.register_class
 class JPEGDescriptor(CDCIDescriptor):
     class_id = b'JPED'
+    propertydefs_dict = {}
     propertydefs = CDCIDescriptor.propertydefs + [
         AVBPropertyDef('jpeg_table_id',           "OMFI:JPED:JPEGTableID",           "int32"),
         AVBPropertyDef('jpeg_frame_index_offset', "OMFI:JPED:OffsetToFrameIndexes",  "uint64"),
@@ -1184,6 +1197,7 @@ def encode_pixel_layout(ctx, layout):
 @utils.register_class
 class RGBADescriptor(DIDDescriptor):
     class_id = b'RGBA'
+    propertydefs_dict = {}
     propertydefs = DIDDescriptor.propertydefs + [
         AVBPropertyDef('pixel_layout',       'OMFI:RGBA:PixelLayout',          'list'),
         AVBPropertyDef('palette',            'OMFI:RGBA:Palette',              'list'),
@@ -1316,6 +1330,7 @@ class RGBADescriptor(DIDDescriptor):
 @utils.register_class
 class DataDescriptor(MediaFileDescriptor):
     class_id = b'DATD'
+    propertydefs_dict = {}
     propertydefs = MediaFileDescriptor.propertydefs + [
         AVBPropertyDef("is_offset_to_frame_indexes_valid", "OMFI:DATD:IsOffsetToFrameIndexesValid", 'bool'),
         AVBPropertyDef("offset_to_frame_indexes",          "OMFI:DATD:OffsetToFrameIndexes",        'uint64'),
@@ -1352,6 +1367,7 @@ class DataDescriptor(MediaFileDescriptor):
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
+    propertydefs_dict = {}
     propertydefs = DataDescriptor.propertydefs + [
         AVBPropertyDef("manifest_element_count",  "OMFI:ANCD:ManifestElementCount",  'int32'),
     ]
-- 
2.43.0


From 20a36780bcdda98d60b9bc15f4a3c06eff0e6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 27/42] fix: no open instance dictionary on ShapeList

---
 src/avb/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 6723677..d9f93b1 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -143,6 +143,7 @@ class ShapeList(core.AVBObject):
     propertydefs = [
         AVBPropertyDef('shape_data', 'ShapeList', 'bytes'),
     ]
+    __slots__ = ()
 
     def read(self, f):
         super(ShapeList, self).read(f)
-- 
2.43.0


From 6ff774de8fff234c5eeec3fff25b59384c799ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:25 +0000
Subject: [PATCH 28/42] fix: a source clip finds its track past tracks without
 number or component

---
 src/avb/components.py  | 4 +++-
 src/avb/trackgroups.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 2446c8b..8c14f5a 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -323,7 +323,9 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                # a track can be without a number or a component
+                component = getattr(track, 'component', None)
+                if getattr(track, 'index', None) == self.track_id and component and self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 515aa35..8b3f31b 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -46,7 +46,7 @@ class Track(core.AVBObject):
 
     @property
     def media_kind(self):
-        if hasattr(self, 'component'):
+        if hasattr(self, 'component') and self.component:
             return self.component.media_kind
 
     @property
-- 
2.43.0


From f10e3fe9a44b1af307bd990b711bdc402962bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 29/42] fix: compiled readers pass on the failure of the reader
 they build on

---
 src/avb/_ext_core.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..023d615 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -458,7 +458,7 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -477,7 +477,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -487,7 +487,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -497,7 +497,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -513,7 +513,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -529,7 +529,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -658,7 +658,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -671,7 +671,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -751,7 +751,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -789,7 +789,7 @@ static int read_trackeffect(Buffer *f, Properties *p)
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -803,7 +803,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -825,7 +825,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -894,7 +894,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1102,7 +1102,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
-- 
2.43.0


From e685cceebdd3d983975f0336869a94c443a4c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 30/42] fix: compiled readers check the end tag of TKFX, MDES,
 DIDD and empty ATTR objects

---
 src/avb/_ext.pyx      |  8 ++++----
 src/avb/_ext_core.cpp | 25 +++++++++++++++++++------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..8e6a165 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -149,8 +149,8 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef int read_trackeffect(Buffer *f, Properties *p) except+
     cdef int read_selector(Buffer *f, Properties *p) except+
     cdef int read_composition(Buffer *f, Properties *p) except+
-    cdef int read_media_descriptor(Buffer *f, Properties *p) except+
-    cdef int read_did_descriptor(Buffer *f, Properties *p) except+
+    cdef int read_mdes(Buffer *f, Properties *p) except+
+    cdef int read_didd(Buffer *f, Properties *p) except+
     cdef int read_cdci_descriptor(Buffer *f, Properties *p) except+
     cdef int read_effectparamlist(Buffer *f, Properties *p) except+
 
@@ -623,7 +623,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_media_descriptor(&buf, &p)
+        ret = read_mdes(&buf, &p)
 
     if ret < 0:
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
@@ -643,7 +643,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_did_descriptor(&buf, &p)
+        ret = read_didd(&buf, &p)
 
     if ret < 0:
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 023d615..bbdf9f2 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -784,6 +784,8 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
@@ -878,6 +880,14 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_mdes(Buffer *f, Properties *p)
+{
+    check(read_media_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_media_file_descriptor(Buffer *f,  Properties *p)
 {
     check(read_media_descriptor(f, p));
@@ -1100,6 +1110,14 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_didd(Buffer *f, Properties *p)
+{
+    check(read_did_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
     check(read_did_descriptor(f, p));
@@ -1232,12 +1250,8 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     size_t attr_count = read_u32le(f);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1258,7 +1272,6 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From b6271b79242db5216892de1fc87bda0bfe653fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:08 +0000
Subject: [PATCH 31/42] fix: compiled readers report data that runs out or is
 left over

---
 src/avb/_ext.pyx      | 15 +++++++++++++++
 src/avb/_ext_core.cpp | 40 ++++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 8e6a165..909fc01 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -121,6 +121,7 @@ cdef extern from "_ext_core.cpp" nogil:
         const uint8_t *ptr
         const uint8_t *end
         const char *error_message
+        bint overrun
 
     cdef struct Properties:
         PropertyType type
@@ -394,6 +395,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef AttrData item
     cdef vector[AttrData] d
@@ -459,6 +461,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -478,6 +481,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -497,6 +501,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -519,6 +524,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -539,6 +545,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -558,6 +565,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -577,6 +585,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -596,6 +605,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -619,6 +629,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -639,6 +650,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -660,6 +672,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -680,6 +693,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
@@ -702,6 +716,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     buf.ptr =  &data[0]
     buf.end = &data[-1]
     buf.error_message = ""
+    buf.overrun = False
 
     cdef Properties p
     cdef int ret
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index bbdf9f2..141f282 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -40,6 +40,7 @@ struct Buffer {
     const uint8_t *ptr;
     const uint8_t *end;
     const char *error_message;
+    bool overrun;
 };
 
 enum StringType {
@@ -169,6 +170,7 @@ static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
+    f->overrun = true;
     return 0;
 }
 
@@ -187,6 +189,16 @@ static inline uint8_t read_u8(Buffer *f)
         return -1; \
     } \
 
+// everything was there and everything was read
+static inline int read_end(Buffer *f)
+{
+    if (f->overrun || f->ptr <= f->end) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+    return 0;
+}
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -473,7 +485,7 @@ static int read_sequence(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 static int read_clip(Buffer *f, Properties *p)
 {
@@ -492,7 +504,7 @@ static int read_filler(Buffer *f, Properties *p)
     read_assert_tag(f, 0x01);
 
     read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_sourceclip(Buffer *f, Properties *p)
@@ -524,7 +536,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_paramclip(Buffer *f, Properties *p)
@@ -608,7 +620,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     }
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_paramitem(Buffer *f, Properties *p)
@@ -653,7 +665,7 @@ static int read_paramitem(Buffer *f, Properties *p)
         }
     }
     read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_trackref(Buffer *f, Properties *p)
@@ -666,7 +678,7 @@ static int read_trackref(Buffer *f, Properties *p)
     add_int(p, "relative_track", (int16_t)read_u16le(f));
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_trackgroup(Buffer *f, Properties *p)
@@ -786,7 +798,7 @@ static int read_trackeffect(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_selector(Buffer *f, Properties *p)
@@ -800,7 +812,7 @@ static int read_selector(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_composition(Buffer *f, Properties *p)
@@ -838,7 +850,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_media_descriptor(Buffer *f,  Properties *p)
@@ -885,7 +897,7 @@ static int read_mdes(Buffer *f, Properties *p)
     check(read_media_descriptor(f, p));
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_media_file_descriptor(Buffer *f,  Properties *p)
@@ -1115,7 +1127,7 @@ static int read_didd(Buffer *f, Properties *p)
     check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
@@ -1153,7 +1165,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
         }
     }
     read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_effectparamlist(Buffer *f, Properties *p)
@@ -1238,7 +1250,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_attributes(Buffer *f, std::vector<AttrData> &d)
@@ -1275,5 +1287,5 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     }
     read_assert_tag(f, 0x03);
 
-    return 0;
+    return read_end(f);
 }
-- 
2.43.0


From 18baaa40a177a871ee7a946dfb35d626fd761ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 32/42] fix: compiled readers check sizes and counts against
 what is left

---
 src/avb/_ext_core.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 141f282..17a721a 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -241,13 +241,28 @@ static inline double read_exp10_encoded_float(Buffer *f)
     return mantissa * pow(10.0, (int)exp10);
 }
 
-static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
+// is there room for count items of at least size bytes in what is left
+static inline bool has_left(Buffer *f, uint64_t count, uint64_t size)
+{
+    return count <= (uint64_t)(f->end - f->ptr + 1) / size;
+}
+
+#define check_left(f, count, size) \
+    if (!has_left(f, count, size)) { \
+        f->error_message = ASSERT_MESSAGE; \
+        return -1; \
+    } \
+
+static inline int read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    check_left(f, size, 1);
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
     }
+
+    return 0;
 }
 
 static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
@@ -475,6 +490,7 @@ static int read_sequence(Buffer *f, Properties *p)
     read_assert_tag(f, 0x03);
 
     uint32_t count = read_u32le(f);
+    check_left(f, count, 4);
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
@@ -551,6 +567,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
+    check_left(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -691,7 +708,8 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "length", (int32_t)read_u32le(f));
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
-    int32_t track_count =  (int32_t)read_u32le(f);
+    uint32_t track_count =  read_u32le(f);
+    check_left(f, track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -699,7 +717,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
     vector <Properties> &tracks = child.data;
     tracks.resize(track_count);
 
-    for (int i = 0; i < track_count; i++) {
+    for (uint32_t i = 0; i < track_count; i++) {
         Properties &track = tracks[i];
         track.type = TRACK;
         uint16_t flags = read_u16le(f);
@@ -746,7 +764,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                for (int i = 0; i < track_count; i++) {
+                for (uint32_t i = 0; i < track_count; i++) {
                     read_assert_tag(f, 69);
                     add_int(&tracks[i], "lock_number", (int16_t)read_u16le(f));
                 }
@@ -878,7 +896,7 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
         } else if (tag== 0x02) {
             read_assert_tag(f, 65);
             vector<uint8_t> &data = add_bytearray(p, "wchar");
-            read_data32(f, data);
+            check(read_data32(f, data));
         } else if (tag == 0x03 ) {
             read_assert_tag(f, 72);
             add_object_ref(p, "attributes", read_u32le(f));
@@ -944,6 +962,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
     size_t line_map_byte_size = read_u32le(f);
+    check_left(f, line_map_byte_size, 1);
     for (size_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
@@ -1178,6 +1197,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
     uint32_t parameter_count = read_u32le(f);
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
+    check_left(f, parameter_count, 102);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -1230,6 +1250,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
         uint32_t color_count =read_u32le(f);
+        check_left(f, color_count, 4);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
@@ -1238,6 +1259,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         }
 
         uint32_t param_size = read_u32le(f);
+        check_left(f, param_size, 1);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
         user_param.resize(param_size);
         for (size_t j=0; j < param_size; j++) {
@@ -1260,6 +1282,7 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_left(f, attr_count, 8);
     d.resize(attr_count);
 
     for(size_t i =0; i < attr_count; i++) {
@@ -1277,7 +1300,7 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 ptr->value = read_u32le(f);
                 break;
             case BOB_ATTR:
-                read_data32(f, ptr->data);
+                check(read_data32(f, ptr->data));
                 break;
             default:
                 fprintf(stderr, "unknown attr type: %d\n", (uint32_t)ptr->type);
-- 
2.43.0


From 90d23a9daebc73e516f960c070cf12da15b3715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:51 +0000
Subject: [PATCH 33/42] fix: compiled readers keep the sign of the fields the
 Python readers read signed

---
 src/avb/_ext.pyx      | 4 ++--
 src/avb/_ext_core.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 909fc01..10cd1bc 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -217,7 +217,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -231,7 +231,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 17a721a..6d7828c 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -455,7 +455,7 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
@@ -846,7 +846,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1157,7 +1157,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From d73b17f9b1cbbba7ed549bb6ad6b3bb010dc3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:14 +0000
Subject: [PATCH 34/42] fix: compiled readers return strings like the Python
 readers

---
 src/avb/_ext.pyx      | 13 +++++++++----
 src/avb/_ext_core.cpp |  8 +++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 10cd1bc..e0e669d 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -79,6 +79,7 @@ cdef extern from "_ext_core.cpp" nogil:
 
     cdef struct StringData:
         const char *name
+        bint empty_is_none
         StringType type
         vector[uint8_t] data
 
@@ -304,9 +305,13 @@ cdef void strings2dict(dict d, Properties *p):
 
         if data_size > 0:
             ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
+            value = ptr[:data_size].strip(b'\x00').decode("macroman")
         else:
-            d[item.name.decode('utf-8')] = u""
+            value = u""
+
+        if item.empty_is_none and not value:
+            value = None
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -423,7 +428,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             data_size = item.data.size()
             if data_size > 0:
                 ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
+                value = ptr[:data_size].strip(b'\x00').decode('macroman')
             else:
                 value = ""
 
@@ -440,7 +445,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
 
         data_size = item.name.size()
         ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[ptr[:data_size].strip(b'\x00').decode('macroman')] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 6d7828c..9e296c1 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -128,6 +128,7 @@ struct ControlPointData {
 
 struct StringData {
     const char *name;
+    bool empty_is_none;
     StringType type;
     vector<uint8_t> data;
 };
@@ -276,13 +277,14 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool empty_is_none = false)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
     StringData &s = p->strings[string_size];
 
     s.name = name;
+    s.empty_is_none = empty_is_none;
     s.type = t;
     read_data16(f, s.data);
 }
@@ -459,8 +461,8 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
-- 
2.43.0


From 88ad5c56782f6b1b7be580890de1687bf6123691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:33 +0000
Subject: [PATCH 35/42] fix: compiled readers use the types of the Python
 readers for offset and compress_method

---
 src/avb/_ext.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index e0e669d..fe06188 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -214,7 +214,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
@@ -355,11 +355,15 @@ cdef void bytearray2dict(dict d, Properties *p):
     cdef size_t size
     for item in p.bytearrays:
         size = item.data.size()
+        name = item.name.decode('utf-8')
         if size:
             ptr = &item.data[0]
-            d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
+            if name == 'compress_method':
+                d[name] = <bytes> ptr[:size]
+            else:
+                d[name] = <bytearray> ptr[:size]
         else:
-            d[item.name.decode('utf-8')] = bytearray()
+            d[name] = bytearray()
 
 cdef dict process_poperties(object root, Properties *p):
     cdef dict result = AVBPropertyData()
-- 
2.43.0


From e46a983b782fb6ca2e4ed28720a2930d5b8f43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:53 +0000
Subject: [PATCH 36/42] fix: compiled readers refuse the values the Python
 readers refuse

---
 src/avb/_ext_core.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 9e296c1..a59a39d 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -566,6 +566,11 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "interp_kind", (int32_t)read_u32le(f));
 
     ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
+    if (value_type != CP_TYPE_INT && value_type != CP_TYPE_DOUBLE && value_type != CP_TYPE_REFERENCE) {
+        fprintf(stderr, "unknown value_type: %d\n", value_type);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
@@ -600,7 +605,12 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
 
-        uint16_t pp_count = read_u16le(f);
+        int16_t pp_count = (int16_t)read_u16le(f);
+        if (pp_count < 0) {
+            fprintf(stderr, "bad pp count: %d\n", pp_count);
+            f->error_message = ASSERT_MESSAGE;
+            return -1;
+        }
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -828,7 +838,14 @@ static int read_selector(Buffer *f, Properties *p)
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected",  selected);
+
+    if (selected >= p->children[0].data.size()) {
+        fprintf(stderr, "bad selected track: %d\n", selected);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From eec4d0f4635e3dfd8e9970754a97d1942a4b80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:13 +0000
Subject: [PATCH 37/42] fix: compiled readers do not swallow exceptions while
 setting properties

---
 src/avb/_ext.pyx | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index fe06188..60ae75c 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -173,12 +173,12 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
         d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
@@ -187,7 +187,7 @@ cdef void reflist2dict(object root, dict d, Properties* p):
         reflist.extend(item.data)
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -246,7 +246,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -255,23 +255,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -283,7 +283,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -294,7 +294,7 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef const char * ptr
 
     cdef StringData item
@@ -313,7 +313,7 @@ cdef void strings2dict(dict d, Properties *p):
             value = None
         d[item.name.decode('utf-8')] = value
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -337,7 +337,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -349,7 +349,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
-- 
2.43.0


From 3323d4b5a8a18bfbc937724f73cff4061eb43466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:35 +0000
Subject: [PATCH 38/42] fix: compiled readers check references and give the
 component list its parent

---
 src/avb/_ext.pyx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 60ae75c..d816b64 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -173,18 +173,25 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+cdef object object_ref(object root, uint64_t index):
+    ref = AVBObjectRef(root, index)
+    if root.check_refs and not ref.valid:
+        raise ValueError("bad index: %d" % index)
+    return ref
+
 cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p) except *:
+cdef void reflist2dict(object root, object parent, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
-        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
-        reflist.extend(item.data)
+        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
+        for i in item.data:
+            reflist.append(object_ref(root, i))
         d[item.name.decode('utf-8')] = reflist
 
 cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
@@ -222,7 +229,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -365,13 +372,13 @@ cdef void bytearray2dict(dict d, Properties *p) except *:
         else:
             d[name] = bytearray()
 
-cdef dict process_poperties(object root, Properties *p):
+cdef dict process_poperties(object root, Properties *p, object parent=None):
     cdef dict result = AVBPropertyData()
 
     if p.refs.size():
         refs2dict(root, result, p)
     if p.reflists.size():
-        reflist2dict(root, result, p)
+        reflist2dict(root, parent, result, p)
     if p.ints.size():
         ints2dict(result, p)
     if p.doubles.size():
@@ -437,7 +444,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
                 value = ""
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
@@ -480,7 +487,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
-- 
2.43.0


From 7055581f3e0443c5da5b1cc2e67ee85f44c90b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:56 +0000
Subject: [PATCH 39/42] fix: refuse negative counts of tracks, line map bytes
 and effect parameters

---
 src/avb/essence.py     | 1 +
 src/avb/misc.py        | 1 +
 src/avb/trackgroups.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index b719864..811e80d 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -600,6 +600,7 @@ class DIDDescriptor(MediaFileDescriptor):
         self.aspect_ratio = [numerator, denominator]
 
         line_map_byte_size = ctx.read_s32(f)
+        assert line_map_byte_size >= 0
         self.line_map = []
         if line_map_byte_size:
             for i in range(line_map_byte_size // 4):
diff --git a/src/avb/misc.py b/src/avb/misc.py
index d9f93b1..3487ca8 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -260,6 +260,7 @@ class EffectParamList(core.AVBObject):
         self.window_offset = ctx.read_s32(f)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.keyframe_size = ctx.read_s32(f)
         self.parameters = []
 
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8b3f31b..fc1489d 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -112,6 +112,7 @@ class TrackGroup(Component):
         self.num_scalars = ctx.read_s32(f)
 
         track_count = ctx.read_s32(f)
+        assert track_count >= 0
         self.tracks = []
         # print("tracks:", track_count)
         # really annoying, tracks can have variable lengths!!
-- 
2.43.0


From d90914d32e2b47ea34a3257b4c24e1678b3f7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:57 +0000
Subject: [PATCH 40/42] fix: reference lists search, remove, slice and reverse
 objects, not references

---
 src/avb/core.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a991e2c..ba59310 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -91,7 +91,7 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
+        super(AVBRefList, self).__delitem__(self.index(x))
         self.mark_modified()
 
     def pop(self, i=-1):
@@ -130,7 +130,10 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        result = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(value) for value in result]
+        return self.deref(result)
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
@@ -144,6 +147,19 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
+    def __contains__(self, x):
+        return x in list(self)
+
+    def index(self, *args):
+        return list(self).index(*args)
+
+    def count(self, x):
+        return list(self).count(x)
+
 def copy_value(value, root):
     if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
         return value.copy(root)
-- 
2.43.0


From 5a635d31e5c644c949bcd7d08c55d94ed41ca93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:57 +0000
Subject: [PATCH 41/42] fix: values, pop, popitem and setdefault of attributes
 give objects, not references

---
 src/avb/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index ba59310..b8faffb 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -47,9 +47,23 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for key, value in self.items():
+            yield value
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def setdefault(self, *args, **kwargs):
+        return self.deref(super(AVBPropertyData, self).setdefault(*args, **kwargs))
+
+    def pop(self, *args, **kwargs):
+        return self.deref(super(AVBPropertyData, self).pop(*args, **kwargs))
+
+    def popitem(self, *args, **kwargs):
+        key, value = super(AVBPropertyData, self).popitem(*args, **kwargs)
+        return key, self.deref(value)
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
-- 
2.43.0


From 73529d3de16648a556262bc3f9979d4ff0f64409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:02 +0000
Subject: [PATCH 42/42] fix: integrating a curve up to a time before its first
 point

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 8c14f5a..83fdb17 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -803,7 +803,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
-- 
2.43.0

