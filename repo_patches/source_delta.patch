From 8f3eca77f04236370c773ae7ab8e875c4123ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 01/47] fix: DATD descriptors lack their end tag

DataDescriptor.write never wrote the final 0x03, so write_object refused
every document with one, and read left the end tag of stored ones unread.
---
 src/avb/essence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..518ceee 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -1337,6 +1337,9 @@ class DataDescriptor(MediaFileDescriptor):
         self.min_sample_size = ctx.read_s32(f)
         self.max_sample_size = ctx.read_s32(f)
 
+        if self.class_id[:] == b'DATD':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(DataDescriptor, self).write(f)
         ctx = self.root.octx
@@ -1349,6 +1352,9 @@ class DataDescriptor(MediaFileDescriptor):
         ctx.write_s32(f, self.min_sample_size)
         ctx.write_s32(f, self.max_sample_size)
 
+        if self.class_id[:] == b'DATD':
+            ctx.write_u8(f, 0x03)
+
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
-- 
2.43.0


From 574dba2e1fe5eb2e7bce82d3472996fd4f08df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 02/47] fix: reference lists ignore clear, sort and reverse and
 do not see references as objects

AVBRefList.clear/sort/reverse did nothing, slices returned raw references,
and remove, index, count, in, reversed and == compared raw references
instead of the objects they point to. copy failed on null entries.
---
 src/avb/core.py | 64 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..b1690b0 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -74,7 +74,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(item.copy(root) if item is not None else None)
         return obj
 
     def extend(self, x):
@@ -90,8 +90,7 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
-        self.mark_modified()
+        del self[self.index(x)]
 
     def pop(self, i=-1):
         result = self.deref(super(AVBRefList, self).pop(i))
@@ -99,16 +98,60 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
-        self.mark_modified()
+        del self[:]
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
-        self.mark_modified()
+        self[:] = sorted(self, key=key, reverse=reverse)
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
+        self.mark_modified()
+
+    # the stored items can be unresolved references, these need to
+    # see the objects they point to.
+
+    def index(self, x, *args):
+        return list(self).index(x, *args)
+
+    def count(self, x):
+        return list(self).count(x)
+
+    def __contains__(self, x):
+        return x in list(self)
+
+    def __reversed__(self):
+        return reversed(list(self))
+
+    def __eq__(self, other):
+        if isinstance(other, list):
+            return self is other or list(self) == list(other)
+        return NotImplemented
+
+    def __ne__(self, other):
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
+
+    __hash__ = None
+
+    def __add__(self, other):
+        return list(self) + list(other) if isinstance(other, list) else NotImplemented
+
+    def __radd__(self, other):
+        return list(other) + list(self) if isinstance(other, list) else NotImplemented
+
+    def __mul__(self, n):
+        return list(self) * n
+
+    __rmul__ = __mul__
+
+    def __iadd__(self, x):
+        self.extend(x)
+        return self
+
+    def __imul__(self, n):
+        result = super(AVBRefList, self).__imul__(n)
         self.mark_modified()
+        return result
 
     def deref(self, value):
         if isinstance(value, INT_FORMAT):
@@ -119,7 +162,10 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        value = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(item) for item in value]
+        return self.deref(value)
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
-- 
2.43.0


From 1be7ced4fa2e8044ba93a402b2a25f29f600d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 03/47] fix: Composition ignores its name argument and accepts
 unknown mob types

The name was set to the mob type and the ValueError was created without
being raised.
---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..cbc303e 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1038,7 +1038,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 87b2c6e1635b0110118927e9adc4cb2a2de8344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/47] fix: ASPIPlugin cannot be created

create.ASPIPlugin() passes no arguments, its __init__ asked for one.
---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index cbc303e..b43dd70 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__(self)
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From a8d9326ebe76e718eb504a6a027dce3112058252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/47] fix: ASPI effects with large MobID words cannot be
 saved

The words of the material number are unsigned, half of all MobIDs do not
fit write_s32.
---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index b43dd70..49ba29c 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From 01e6abc8d5a3180850696d89cca0b10d2942049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 06/47] fix: ASPI effects with several plugins are saved but
 cannot be read

read asserted exactly one plugin while write stores any number.
---
 src/avb/trackgroups.py | 53 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 49ba29c..32cea7c 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -459,39 +459,40 @@ class AudioSuitePluginEffect(TrackEffect):
         number_of_plugins = ctx.read_s32(f)
 
         #TODO: find sample with multiple plugins
-        assert number_of_plugins == 1
-
-        plugin = ASPIPlugin.__new__(ASPIPlugin, root=self.root)
-        plugin.name = ctx.read_string(f)
-        plugin.manufacturer_id = ctx.read_u32(f)
-        plugin.product_id = ctx.read_u32(f)
-        plugin.plugin_id = ctx.read_u32(f)
-        # print(peek_data(f).encode("hex"))
-        num_of_chunks = ctx.read_s32(f)
+        assert number_of_plugins >= 0
+
+        for i in range(number_of_plugins):
+            plugin = ASPIPlugin.__new__(ASPIPlugin, root=self.root)
+            plugin.name = ctx.read_string(f)
+            plugin.manufacturer_id = ctx.read_u32(f)
+            plugin.product_id = ctx.read_u32(f)
+            plugin.plugin_id = ctx.read_u32(f)
+            # print(peek_data(f).encode("hex"))
+            num_of_chunks = ctx.read_s32(f)
 
-        #TODO: find sample with multiple chunks
-        # print('chunks', num_of_chunks)
-        assert num_of_chunks >= 0
-        plugin.chunks = []
-        for i in range(num_of_chunks):
+            #TODO: find sample with multiple chunks
+            # print('chunks', num_of_chunks)
+            assert num_of_chunks >= 0
+            plugin.chunks = []
+            for j in range(num_of_chunks):
 
-            chunk_size = ctx.read_s32(f)
-            assert chunk_size >= 0
+                chunk_size = ctx.read_s32(f)
+                assert chunk_size >= 0
 
-            chunk = ASPIPluginChunk.__new__(ASPIPluginChunk, root=self.root)
-            chunk.version = ctx.read_s32(f)
-            chunk.manufacturer_id = ctx.read_u32(f)
-            chunk.product_id = ctx.read_u32(f)
-            chunk.plugin_id = ctx.read_u32(f)
+                chunk = ASPIPluginChunk.__new__(ASPIPluginChunk, root=self.root)
+                chunk.version = ctx.read_s32(f)
+                chunk.manufacturer_id = ctx.read_u32(f)
+                chunk.product_id = ctx.read_u32(f)
+                chunk.plugin_id = ctx.read_u32(f)
 
-            chunk.chunk_id = ctx.read_u32(f)
-            chunk.name = ctx.read_string(f)
+                chunk.chunk_id = ctx.read_u32(f)
+                chunk.name = ctx.read_string(f)
 
-            chunk.data = bytearray(f.read(chunk_size))
+                chunk.data = bytearray(f.read(chunk_size))
 
-            plugin.chunks.append(chunk)
+                plugin.chunks.append(chunk)
 
-        self.plugins.append(plugin)
+            self.plugins.append(plugin)
 
         # print(peek_data(f).encode("hex"))
 
-- 
2.43.0


From 8291f56c2bb76b22a88617aa78a514e55a568f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 07/47] fix: decimal rates change when saved

write_exp10_encoded_float multiplied the float by ten repeatedly and
truncated it, losing a unit for values like 0.29, and turned 5994 and 599.4
into 59.94. Reading multiplied by an inexact negative power of ten, so the
result was not the nearest double of the stored decimal.
---
 src/avb/_ext_core.cpp |  2 ++
 src/avb/ioctx.py      | 27 ++++++++++++++-------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..b9fc499 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -226,6 +226,8 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    if (exp10 < 0)
+        return mantissa / pow(10.0, -(int)exp10);
     return mantissa * pow(10.0, (int)exp10);
 }
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..c474811 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -14,7 +14,7 @@ from .utils import AVBObjectRef
 from .mobid import MobID
 
 exp10_pretty = {
-5994: (59940, -3),
+(5994, -2): (59940, -3),
 }
 
 class AVBIOContext(object):
@@ -129,25 +129,26 @@ class AVBIOContext(object):
         mantissa = self.read_s32(f)
         exp10 = self.read_s16(f)
 
-        return float(mantissa) * pow(10, exp10)
+        # powers of ten are exact, negative ones are not
+        if exp10 < 0:
+            return mantissa / pow(10.0, -exp10)
+        return mantissa * pow(10.0, exp10)
 
     def write_exp10_encoded_float(self, f, value):
+        mantissa = int(round(value))
         exponent = 0
-        while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
+        # add digits until they give value back
+        while mantissa / pow(10.0, -exponent) != value and exponent > -6:
+            scaled = int(round(value * pow(10, 1 - exponent)))
+            if abs(scaled) > 0x7FFFFFFF:
                 break
-            if exponent <= -6:
-                break
-            value *= 10
+            mantissa = scaled
             exponent -= 1
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
-        else:
-            self.write_s32(f, int(value))
-            self.write_s16(f, exponent)
+        mantissa, exponent = exp10_pretty.get((mantissa, exponent), (mantissa, exponent))
+        self.write_s32(f, mantissa)
+        self.write_s16(f, exponent)
 
 
     def read_string(self, f, encoding = 'macroman'):
-- 
2.43.0


From 9753650c8167bfe4ae72248ac0a102b0ff50ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 08/47] fix: dates in the repeated hour at the end of daylight
 saving time shift by an hour

timetuple() drops fold, which datetime.fromtimestamp sets on reading.
---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index c474811..160390e 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        if hasattr(d, 'timestamp'):
+            # knows about fold
+            return int(d.timestamp())
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From dca7d560cc64af0658bd05b6d85bf632574f2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 09/47] fix: text that cannot be read back is saved

65535 encoded bytes collide with the size that marks an empty string, and
null characters at either end are stripped on reading.
---
 src/avb/ioctx.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 160390e..d1ed452 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -174,6 +174,11 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # read_string strips null bytes and takes size 65535 as empty
+        if size >= 65535:
+            raise ValueError("string too long: %d bytes" % size)
+        if s != s.strip(u'\0'):
+            raise ValueError("string starts or ends with a null character: %r" % s)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From 45a17cea7b3764925a89dde033432d4b95a5eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 10/47] fix: MPGA sub_frame_alignment is read unsigned but
 written signed

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 518ceee..38126e7 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From de37b8b75862f5dfaee0689f269277e58dc8f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 11/47] fix: BinRef without UTF-8 name cannot be saved, Marker
 colors of any length are

The name is optional on reading; a color with other than three values
gave a file that cannot be read.
---
 src/avb/misc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..43b065e 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
@@ -931,6 +932,7 @@ class Marker(MobRef):
         #version
         ctx.write_s16(f, 1)
 
+        assert len(self.color) == 3
         for c in self.color:
             ctx.write_u16(f, c)
 
-- 
2.43.0


From 910521d8600176ab772e1743d38a87e369298fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 12/47] fix: Selector with selected out of range is saved but
 cannot be read

---
 src/avb/trackgroups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 32cea7c..fb83351 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1013,6 +1013,7 @@ class Selector(TrackGroup):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        assert self.selected < len(self.tracks)
         ctx.write_bool(f, self.is_ganged)
         ctx.write_u16(f, self.selected)
 
-- 
2.43.0


From 803c5f5a5cd822efc39701543c6fa4200a74eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 13/47] fix: more than 32767 format descriptors are saved but
 cannot be read

The count is read signed.
---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..b5428e3 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
-- 
2.43.0


From a421184e0da55297a14357cf387f02685860aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 14/47] fix: media_kind of a track with a null component raises
 AttributeError

---
 src/avb/trackgroups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index fb83351..6ce25e5 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -46,8 +46,9 @@ class Track(core.AVBObject):
 
     @property
     def media_kind(self):
-        if hasattr(self, 'component'):
-            return self.component.media_kind
+        component = getattr(self, 'component', None)
+        if component is not None:
+            return component.media_kind
 
     @property
     def flags(self):
-- 
2.43.0


From 992d228594a985d2ceb0b718beccdabd4b336aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 15/47] fix: a damaged object count exhausts memory

Room for up to 2**32 positions was made before looking at the file.
---
 src/avb/file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..ade9f42 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -169,16 +169,17 @@ class AVBFile(object):
 
         self.root_chunk = AVBChunk(self, b'OBJD', pos, f.tell() - pos)
 
-        self.object_positions = array.array(str('L'), [0 for i in range(num_objects+1)])
-        self.next_object_id = len(self.object_positions)
+        self.object_positions = array.array(str('L'), [0])
 
         for i in range(num_objects):
-            self.object_positions[i+1] = f.tell()
+            self.object_positions.append(f.tell())
             class_id = f.read(4)
             size = ctx.read_u32(f)
 
             f.seek(size, os.SEEK_CUR)
 
+        self.next_object_id = len(self.object_positions)
+
         self.content = self.read_object(self.root_index)
 
     def setup_empty(self):
-- 
2.43.0


From 5badc49481a9bdcd7545b4b520a7776d1f4c6113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 16/47] fix: dependant_mobs never ends when mobs refer to each
 other

---
 src/avb/trackgroups.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 6ce25e5..42d8991 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -232,10 +232,17 @@ class TrackGroup(Component):
         """
 
         visited = set()
+        # mobs whose children are being processed
+        active = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
+            if mob.mob_id in visited:
+                stack.pop(-1)
+                continue
+
+            active.add(mob.mob_id)
             children_processed = True
 
             for obj in walk_references(mob):
@@ -243,16 +250,15 @@ class TrackGroup(Component):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in active:
                         stack.append(ref_mob)
                         children_processed = False
 
             if children_processed:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
+                visited.add(mob.mob_id)
+                if mob is not self:
+                    yield mob
 
 
 @utils.register_class
-- 
2.43.0


From 3549bdf1f1f5eb10adbe7b16d3c82d6ac7d2ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 17/47] fix: new objects share their default lists and bin
 columns

Editing home_rect, the colors, aspect_ratio, line_map or a column of one
new object changed the default of every other one.
---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index b5428e3..8edbd60 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend([dict(column) for column in default_bin_columns])
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index b1690b0..79c40b8 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 from . import utils
@@ -225,7 +226,7 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            self.__setattr__(pdef.name, copy.copy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From 46ac6bcb1eeccbe55d928d50255c2808eb69cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 18/47] fix: copies share MobIDs, byte arrays, dictionaries and
 nested lists with the original

They also had fields the original lacks, left over from the defaults, and
attributes that refer to nothing could not be copied.
---
 src/avb/attributes.py |  2 ++
 src/avb/core.py       | 30 +++++++++++++-----------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..d2c63e4 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -61,6 +61,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = None
             else:
                 obj[key] = value.copy(root)
         return obj
diff --git a/src/avb/core.py b/src/avb/core.py
index 79c40b8..02cfcca 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -180,6 +180,14 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    if isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    # values like MobIDs, bytearrays and dicts can be modified
+    return copy.deepcopy(value)
+
 def walk_references(obj):
 
     if isinstance(obj, list):
@@ -267,24 +275,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # only what is copied, not the defaults
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent is not None:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 915947e749b1992789a74a19937bda18560c6db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 19/47] fix: find_by_mob_id returns removed mobs and misses
 added or changed ones

The dictionary was built once and never updated.
---
 src/avb/bin.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 8edbd60..1da061c 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -216,7 +216,7 @@ class Bin(core.AVBObject):
         AVBPropertyDef('attributes',       'BinAttr',        'reference'),
         AVBPropertyDef('was_iconic',       'WasIconic',      'bool',      False),
     ]
-    __slots__ = ('_mob_dict')
+    __slots__ = ('_mob_dict', '_mob_items')
 
     def __init__(self):
         super(Bin, self).__init__(self)
@@ -233,6 +233,7 @@ class Bin(core.AVBObject):
 
         self.attributes = self.root.create.Attributes()
         self._mob_dict ={}
+        self._mob_items = []
 
     def read(self, f):
         super(Bin, self).read(f)
@@ -257,6 +258,7 @@ class Bin(core.AVBObject):
 
         self.items = []
         self._mob_dict ={}
+        self._mob_items = []
 
         for i in range(object_count):
             bin_obj = BinItem.__new__(BinItem, root=self.root)
@@ -371,12 +373,20 @@ class Bin(core.AVBObject):
 
     def find_by_mob_id(self, mob_id):
 
+        # items and mob ids can change at any time, check that what was found is still true
+        item, mob = self._mob_dict.get(mob_id, (None, None))
+        if mob is not None and self.items == self._mob_items and item.mob is mob and mob.mob_id == mob_id:
+            return mob
+
         # build mob_id dictionary
-        if not self._mob_dict:
-            for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
+        self._mob_dict = {}
+        self._mob_items = list(self.items)
+        for item in self.items:
+            mob = item.mob
+            if hasattr(mob, 'mob_id'):
+                self._mob_dict[mob.mob_id] = (item, mob)
 
-        return self._mob_dict.get(mob_id, None)
+        return self._mob_dict.get(mob_id, (None, None))[1]
 
     def add_mob(self, mob):
         bin_item = self.root.create.BinItem()
@@ -384,7 +394,8 @@ class Bin(core.AVBObject):
         self.items.append(bin_item)
 
         if self._mob_dict:
-            self._mob_dict[mob.mob_id] = mob
+            self._mob_dict[mob.mob_id] = (bin_item, mob)
+            self._mob_items.append(bin_item)
 
         return bin_item
 
-- 
2.43.0


From 3f6cb16644f5cbebbf1d99b47a07dd69b8470164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 20/47] fix: saving over the open source file destroys it, and
 a failed save destroys the previous file

---
 src/avb/file.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index ade9f42..db3d4e8 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -10,6 +10,7 @@ import datetime
 import struct
 import io
 import os
+import shutil
 import binascii
 import traceback
 import array
@@ -347,6 +348,26 @@ class AVBFile(object):
         #     raise Exception()
 
     def write(self, path, byte_order='little'):
+        if isinstance(path, int) or (os.path.exists(path) and not os.path.isfile(path)):
+            # file descriptors and devices can only be written directly
+            self.write_file(path, byte_order)
+            return
+
+        # path could be the file objects are read from, and
+        # what it has needs to survive if writing fails
+        path = os.path.realpath(path)
+        temp_path = "%s.%d.tmp" % (path, os.getpid())
+        try:
+            self.write_file(temp_path, byte_order)
+            if os.path.exists(path):
+                shutil.copymode(path, temp_path)
+            getattr(os, 'replace', os.rename)(temp_path, path)
+        except:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
+
+    def write_file(self, path, byte_order='little'):
         self.next_chunk_id = 0
         self.ref_mapping = {}
         ctx = AVBIOContext(byte_order)
-- 
2.43.0


From 848f959a966bad65e399717a5c4f0897214aa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 21/47] fix: attribute sets give out unresolved references and
 forget moved and popped entries

---
 src/avb/attributes.py |  9 +++++++++
 src/avb/core.py       | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index d2c63e4..1ea0300 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -50,6 +50,15 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        result = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return result
+
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index 02cfcca..ce074b8 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -50,6 +50,29 @@ class AVBPropertyData(OrderedDict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def values(self):
+        for value in super(AVBPropertyData, self).values():
+            yield self.deref(value)
+
+    def pop(self, *args, **kwargs):
+        return self.deref(super(AVBPropertyData, self).pop(*args, **kwargs))
+
+    def popitem(self, *args, **kwargs):
+        key, value = super(AVBPropertyData, self).popitem(*args, **kwargs)
+        return key, self.deref(value)
+
+    def __eq__(self, other):
+        if self is other:
+            return True
+        if isinstance(other, AVBPropertyData):
+            other = OrderedDict(other.items())
+        return OrderedDict(self.items()) == other
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
-- 
2.43.0


From 4f765465b851f30540857ddaa4e82e751609442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 22/47] fix: optional descriptor fields set without their
 companions are silently not saved

---
 src/avb/essence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 38126e7..102cdc5 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -831,7 +831,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.first_frame_offset)
 
-        if hasattr(self, 'client_fill_start'):
+        if hasattr(self, 'client_fill_start') or hasattr(self, 'client_fill_end'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x04)
             ctx.write_u8(f, 71)
@@ -852,7 +852,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.frame_start_offset)
 
-        if hasattr(self, 'valid_box') and hasattr(self, 'essence_box') and hasattr(self, 'source_box'):
+        if hasattr(self, 'valid_box') or hasattr(self, 'essence_box') or hasattr(self, 'source_box'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
@@ -919,7 +919,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.source_box[3][1])
 
-        if hasattr(self, 'framing_box') and hasattr(self, 'reformatting_option'):
+        if hasattr(self, 'framing_box') or hasattr(self, 'reformatting_option'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
@@ -953,7 +953,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 80)
             ctx.write_raw_uuid(f, self.transfer_characteristic)
 
-        if hasattr(self, 'color_primaries') and hasattr(self, 'coding_equations'):
+        if hasattr(self, 'color_primaries') or hasattr(self, 'coding_equations'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 11)
             ctx.write_u8(f, 80)
@@ -1286,7 +1286,8 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 77)
             ctx.write_u64(f, self.frame_index_offset)
 
-        if hasattr(self, 'has_comp_min_ref'):
+        if any(hasattr(self, name) for name in ('has_comp_min_ref', 'comp_min_ref',
+                                                'has_comp_max_ref', 'comp_max_ref')):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x02)
             ctx.write_u8(f, 66)
@@ -1301,7 +1302,7 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 72)
             ctx.write_u32(f, self.comp_max_ref)
 
-        if hasattr(self, 'alpha_min_ref'):
+        if hasattr(self, 'alpha_min_ref') or hasattr(self, 'alpha_max_ref'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x03)
             ctx.write_u8(f, 72)
-- 
2.43.0


From 29f222ed643391a8e545edcbbc0f29d22f402d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 23/47] fix: surplus elements of fixed size values are silently
 dropped when saving

---
 src/avb/bin.py         | 12 +++++++-----
 src/avb/components.py  | 20 ++++++++++++--------
 src/avb/essence.py     | 14 ++++++++++++--
 src/avb/ioctx.py       | 16 +++++++++-------
 src/avb/misc.py        |  3 +++
 src/avb/trackgroups.py |  5 +++--
 6 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 1da061c..c78e4f9 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -342,8 +342,10 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, self.display_mode)
         ctx.write_bool(f, self.sifted)
 
-        for i in range(6):
-            s = self.sifted_settings[i]
+        if len(self.sifted_settings) != 6:
+            raise ValueError("expected 6 sifted settings, got %d" % len(self.sifted_settings))
+
+        for s in self.sifted_settings:
             ctx.write_s16(f, s.method)
             ctx.write_string(f, s.string)
             ctx.write_string(f, s.column)
@@ -351,9 +353,9 @@ class Bin(core.AVBObject):
 
         ctx.write_s16(f, len(self.sort_columns))
 
-        for col in self.sort_columns:
-            ctx.write_u8(f, col[0])
-            ctx.write_string(f, col[1])
+        for direction, col in self.sort_columns:
+            ctx.write_u8(f, direction)
+            ctx.write_string(f, col)
 
         ctx.write_s16(f, self.mac_font)
         ctx.write_s16(f, self.mac_font_size)
diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..b37ac6d 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -627,8 +627,9 @@ class ParamClip(Clip):
         ctx.write_s32(f, len(self.control_points))
 
         for cp in self.control_points:
-            ctx.write_s32(f, cp.offset[0])
-            ctx.write_s32(f, cp.offset[1])
+            num, den = cp.offset
+            ctx.write_s32(f, num)
+            ctx.write_s32(f, den)
             ctx.write_s32(f, cp.timescale)
 
             if self.value_type == CP_TYPE_INT:
@@ -910,19 +911,22 @@ class ControlClip(Clip):
 
         ctx.write_s32(f, len(self.control_points))
         for cp in self.control_points:
-            ctx.write_s32(f, cp.offset[0])
-            ctx.write_s32(f, cp.offset[1])
+            num, den = cp.offset
+            ctx.write_s32(f, num)
+            ctx.write_s32(f, den)
             ctx.write_s32(f, cp.time_scale)
 
             ctx.write_bool(f, True)
-            ctx.write_s32(f, cp.value[0])
-            ctx.write_s32(f, cp.value[1])
+            num, den = cp.value
+            ctx.write_s32(f, num)
+            ctx.write_s32(f, den)
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
                 ctx.write_s16(f, pp.code)
-                ctx.write_s32(f, pp.value[0])
-                ctx.write_s32(f, pp.value[1])
+                num, den = pp.value
+                ctx.write_s32(f, num)
+                ctx.write_s32(f, den)
 
         ctx.write_u8(f, 0x03)
 
diff --git a/src/avb/essence.py b/src/avb/essence.py
index 102cdc5..c4cfd07 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -517,6 +517,10 @@ class MPGADescriptor(MediaFileDescriptor):
         ctx.write_u8(f, 0x03)
 
 
+def check_box(box):
+    if len(box) != 4 or any(len(point) != 2 for point in box):
+        raise ValueError("expected a box of 4 points, got %r" % (box,))
+
 @utils.register_class
 class DIDDescriptor(MediaFileDescriptor):
     class_id = b'DIDD'
@@ -792,8 +796,9 @@ class DIDDescriptor(MediaFileDescriptor):
 
         ctx.write_s16(f, self.frame_layout)
 
-        ctx.write_s32(f, self.aspect_ratio[0])
-        ctx.write_s32(f, self.aspect_ratio[1])
+        num, den = self.aspect_ratio
+        ctx.write_s32(f, num)
+        ctx.write_s32(f, den)
 
         ctx.write_s32(f, len(self.line_map) * 4)
         for i in self.line_map:
@@ -853,6 +858,9 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_s32(f, self.frame_start_offset)
 
         if hasattr(self, 'valid_box') or hasattr(self, 'essence_box') or hasattr(self, 'source_box'):
+            for box in (self.valid_box, self.essence_box, self.source_box):
+                check_box(box)
+
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
@@ -920,6 +928,8 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_s32(f, self.source_box[3][1])
 
         if hasattr(self, 'framing_box') or hasattr(self, 'reformatting_option'):
+            check_box(self.framing_box)
+
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index d1ed452..e5f8265 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -311,11 +311,12 @@ class AVBIOContext(object):
         return [a,b,c,d]
 
     def write_rect(self, f, v):
+        a, b, c, d = v
         self.write_s16(f, 1)
-        self.write_s16(f, v[0])
-        self.write_s16(f, v[1])
-        self.write_s16(f, v[2])
-        self.write_s16(f, v[3])
+        self.write_s16(f, a)
+        self.write_s16(f, b)
+        self.write_s16(f, c)
+        self.write_s16(f, d)
 
     def read_rgb_color(self, f):
         version = self.read_s16(f)
@@ -327,10 +328,11 @@ class AVBIOContext(object):
         return [r,g,b]
 
     def write_rgb_color(self, f, v):
+        r, g, b = v
         self.write_s16(f, 1)
-        self.write_u16(f, v[0])
-        self.write_u16(f, v[1])
-        self.write_u16(f, v[2])
+        self.write_u16(f, r)
+        self.write_u16(f, g)
+        self.write_u16(f, b)
 
     # little
 
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 43b065e..99d1341 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -353,6 +353,9 @@ class EffectParamList(core.AVBObject):
             ctx.write_s32(f, p.crop_top)
             ctx.write_s32(f, p.crop_bottom)
 
+            if len(p.box) != 4:
+                raise ValueError("expected 4 box values, got %d" % len(p.box))
+
             # boxTop
             ctx.write_s32(f, p.box[0])
             # boxBottom
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 42d8991..18b65f7 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -817,8 +817,9 @@ class MotionEffect(TimeWarp):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x03)
 
-        ctx.write_s32(f, self.speed_ratio[0])
-        ctx.write_s32(f, self.speed_ratio[1])
+        num, den = self.speed_ratio
+        ctx.write_s32(f, num)
+        ctx.write_s32(f, den)
 
         if hasattr(self, 'offset_adjust'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From a175aea11e217278d80656995899a5e6d8e7da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 24/47] fix: objects of other files are silently saved as the
 local object with the same id

---
 src/avb/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index db3d4e8..d14d391 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -376,6 +376,9 @@ class AVBFile(object):
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
+                    if obj.root is not self:
+                        # instance ids only mean something in their own file
+                        raise ValueError("object is from different file: " + str(obj))
                     if obj.instance_id in self.ref_mapping:
                         continue
 
-- 
2.43.0


From ee3473047e1869abc6c50094c86524fd631abe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 25/47] fix: a truncated object is read short or exhausts
 memory

Up to 4 GB were set aside before looking whether the file has that much,
and enumerated chunks gave what was there as if it were everything.
---
 src/avb/file.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index d14d391..413824b 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -36,8 +36,12 @@ class AVBChunk(object):
         self.size = size
 
     def read(self):
-        self.root.f.seek(self.pos)
-        return self.root.f.read(self.size)
+        f = self.root.f
+        f.seek(0, os.SEEK_END)
+        if self.pos + self.size > f.tell():
+            raise ValueError("chunk of %d bytes is cut short" % self.size)
+        f.seek(self.pos)
+        return f.read(self.size)
 
     def hex(self):
         ctx = self.root.ictx
@@ -111,6 +115,7 @@ class AVBFile(object):
         self.object_cache = WeakValueDictionary()
         self.modified_objects = {}
         self.next_object_id = 0
+        self.file_size = None
 
         self.octx = None
         self.ictx = None
@@ -261,6 +266,14 @@ class AVBFile(object):
         chunk = AVBChunk(self, class_id, pos, size)
         return chunk
 
+    def check_size(self, pos, size):
+        # the last object could be cut short
+        if self.file_size is None:
+            self.f.seek(0, os.SEEK_END)
+            self.file_size = self.f.tell()
+        if pos + size > self.file_size:
+            raise ValueError("%d bytes at %d are past the end of the file" % (size, pos))
+
     def read_object(self, index):
         if index == 0:
             return None
@@ -280,6 +293,8 @@ class AVBFile(object):
         else:
             class_id, size = struct.unpack(b">4sI", f.read(8))
 
+        self.check_size(object_pos + 8, size)
+        f.seek(object_pos + 8)
         data = bytearray(size)
         bytes_read = f.readinto(data)
         assert bytes_read == size
-- 
2.43.0


From 0e1910c7e88d2fc47101fc44b9a3ea114effddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 26/47] fix: a file without a root object is opened as if it
 had one

---
 src/avb/file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index 413824b..ad84604 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -187,6 +187,8 @@ class AVBFile(object):
         self.next_object_id = len(self.object_positions)
 
         self.content = self.read_object(self.root_index)
+        if self.content is None:
+            raise ValueError("file has no root object")
 
     def setup_empty(self):
         self.f = None
-- 
2.43.0


From 18f98ed14a852830d392fa9bd770d0ba34a1ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 27/47] fix: the creation methods of a factory create whichever
 class was named last

---
 src/avb/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index ad84604..95068a4 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -12,6 +12,7 @@ import io
 import os
 import shutil
 import binascii
+import functools
 import traceback
 import array
 from weakref import WeakValueDictionary
@@ -63,11 +64,9 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return functools.partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -89,9 +88,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 93147be476ec4e7104f198ebfefb347702305ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 28/47] fix: objects with a name argument can't be created with
 it as a keyword

---
 src/avb/file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 95068a4..a83dad4 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -68,11 +68,12 @@ class AVBFactory(object):
     def __getattr__(self, name):
         return functools.partial(self.from_name, name)
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        # NOTE: classes could have a argument called name
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0


From 18f6df670d7ea33de3f5997590d2ae4fd5470c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:33 +0000
Subject: [PATCH 29/47] fix: looking up the start of a component in a sequence
 returns the component before it

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index b37ac6d..2d4748c 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From d4b4d28d8adf48533db31cee545eb6fa9c872c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 30/47] fix: the track of a source clip raises AttributeError
 when a track lacks an index or component

---
 src/avb/components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 2d4748c..749a57f 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -323,7 +323,10 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                # tracks can be missing a index or a component
+                index = getattr(track, 'index', None)
+                component = getattr(track, 'component', None)
+                if index == self.track_id and component is not None and self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
-- 
2.43.0


From 8c6e0f020cd43f8af340c52764c50f3a26940a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 31/47] fix: listing the dependants of a mob without a mob_id
 raises AttributeError

---
 src/avb/trackgroups.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 18b65f7..1db64ba 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -238,11 +238,13 @@ class TrackGroup(Component):
 
         while stack:
             mob = stack[-1]
-            if mob.mob_id in visited:
+            # the first mob can lack a mob_id
+            mob_id = getattr(mob, 'mob_id', None)
+            if mob_id in visited:
                 stack.pop(-1)
                 continue
 
-            active.add(mob.mob_id)
+            active.add(mob_id)
             children_processed = True
 
             for obj in walk_references(mob):
@@ -256,7 +258,7 @@ class TrackGroup(Component):
 
             if children_processed:
                 stack.pop(-1)
-                visited.add(mob.mob_id)
+                visited.add(mob_id)
                 if mob is not self:
                     yield mob
 
-- 
2.43.0


From c4c3a1b8aed1545f060b0d4c9cdc6b6b9b813497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 32/47] fix: adding a mob without a mob_id to a bin raises
 AttributeError after a lookup

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index c78e4f9..853c07e 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -395,7 +395,7 @@ class Bin(core.AVBObject):
         bin_item.mob = mob
         self.items.append(bin_item)
 
-        if self._mob_dict:
+        if self._mob_dict and hasattr(mob, 'mob_id'):
             self._mob_dict[mob.mob_id] = (bin_item, mob)
             self._mob_items.append(bin_item)
 
-- 
2.43.0


From 2459a260d7b6109f4fccca3ab7d9714918f6f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:56 +0000
Subject: [PATCH 33/47] fix: bezier curves with keyframes at the same or
 reversed times raise NameError, the value at a keyframe is not exact

---
 src/avb/interpolation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..2333f22 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -149,10 +149,12 @@ def scale_handle(p0, p1, p2):
 
 def bezier_interpolate(p0, p1, p2, p3, x):
 
-    # degenerate cases 1
-    # p0 is after p3
-    if p0[0] >= p3[0]:
-        return p[1]
+    # the curve starts at p0 and ends at p3
+    # also covers degenerate cases 1, p0 is after p3
+    if x <= p0[0]:
+        return p0[1]
+    if x >= p3[0]:
+        return p3[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
-- 
2.43.0


From ce06b6c5bb8f000ee68deeccbcb195a1fb8d773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 34/47] fix: bezier and cubic curves fail or are imprecise
 where the cubic solver misses the root

---
 src/avb/interpolation.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 2333f22..2c45d15 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -56,7 +56,7 @@ def bezier_cubic_roots(pa, pb, pc, pd):
             return result
 
         # quadratic solution
-        q = math.sqrt(b*b - 4*a*c)
+        q = math.sqrt(max(0.0, b*b - 4*a*c))
         a2 = 2.0*a
         root = (q-b)/a2
         if valid_root(root):
@@ -133,6 +133,18 @@ def bezier_cubic_roots(pa, pb, pc, pd):
 
     return result
 
+def bezier_bisect_root(pa, pb, pc, pd):
+    start = 0.0
+    end = 1.0
+    while True:
+        t = (start + end) * 0.5
+        if t <= start or t >= end:
+            return t
+        if cubic_bezier(pa, pb, pc, pd, t) < 0.0:
+            start = t
+        else:
+            end = t
+
 def scale_handle(p0, p1, p2):
     # scale using similar triangles
     #         o <- p1
@@ -178,12 +190,15 @@ def bezier_interpolate(p0, p1, p2, p3, x):
 
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
-    if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+    t = min(1.0, max(0.0, roots[0])) if roots else 0.0
+
+    # floating point error can make the solver miss the root or be imprecise,
+    # x only increases so the root can be found by bisection
+    if abs(cubic_bezier(pa, pb, pc, pd, t)) > EPSILON * (pd - pa):
+        t = bezier_bisect_root(pa, pb, pc, pd)
 
     # use the root as t for y
-    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
+    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], t)
     return y
 
 def bezier_interpolate_old(p0, p1, p2, p3, t):
-- 
2.43.0


From 5401cbf47973bec12a2b78a413f51957d48ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 35/47] fix: integrating a curve over a range before its first
 keyframe or of a single frame raises TypeError or UnboundLocalError

---
 src/avb/components.py    | 2 +-
 src/avb/interpolation.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 749a57f..81610eb 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -805,7 +805,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 2c45d15..e9b0800 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -314,6 +314,7 @@ def integrate_iter(value_at_func, start, end):
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
         yield t, pos
 
-    t += 0.5
-    pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-    yield t, pos
\ No newline at end of file
+    if end > start:
+        t = float(end - 1)
+        pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
+        yield t, pos
\ No newline at end of file
-- 
2.43.0


From fb3112fed153008d141c9962093ff3a278998660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 36/47] fix: the time of a keyframe on a whole frame can be
 rounded to just before it

---
 src/avb/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 81610eb..3ac5069 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -490,7 +490,8 @@ class ParamControlPoint(core.AVBObject):
         if self.timescale == 0:
             raise ValueError("bad timescale")
 
-        return num / den * self.timescale
+        # multiply first, whole times should not be rounded to something else
+        return num * self.timescale / den
 
     @property
     def point_properties(self):
-- 
2.43.0


From eea81d9988d51e214dbf8265bcf2db1da2734938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 37/47] fix: native readers accept truncated, unterminated or
 mis-tagged objects and allocate for any count

---
 src/avb/_ext.pyx      |  87 ++++++++------------
 src/avb/_ext_core.cpp | 182 ++++++++++++++++++++++++++----------------
 2 files changed, 143 insertions(+), 126 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..d053250 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -121,6 +121,7 @@ cdef extern from "_ext_core.cpp" nogil:
         const uint8_t *ptr
         const uint8_t *end
         const char *error_message
+        bint failed
 
     cdef struct Properties:
         PropertyType type
@@ -138,6 +139,7 @@ cdef extern from "_ext_core.cpp" nogil:
         vector[IntArrayData] arrays
         vector[BytesData] bytearrays
 
+    cdef int read_end(Buffer *f) except+
     cdef int read_attributes(Buffer *f, vector[AttrData] &d) except+
     cdef int read_comp(Buffer *f, Properties *p) except+
     cdef int read_sequence(Buffer *f, Properties *p) except+
@@ -388,12 +390,20 @@ cdef dict process_poperties(object root, Properties *p):
     return result
 
 
-def read_attr_data(root, object_instance, const unsigned char[:] data):
-    cdef Buffer buf
+cdef int init_buffer(Buffer *buf, const unsigned char[:] data) except -1:
+    if data.shape[0] == 0:
+        raise ValueError("no data")
+
     buf.root = &data[0]
     buf.ptr =  &data[0]
-    buf.end = &data[-1]
+    buf.end = &data[data.shape[0] - 1]
     buf.error_message = ""
+    buf.failed = False
+    return 0
+
+def read_attr_data(root, object_instance, const unsigned char[:] data):
+    cdef Buffer buf
+    init_buffer(&buf, data)
 
     cdef AttrData item
     cdef vector[AttrData] d
@@ -455,10 +465,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
 
 def read_sequence_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -474,10 +481,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
 
 def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -493,10 +497,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -515,10 +516,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -535,10 +533,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
 
 def read_trackref_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -554,10 +549,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
 
 def read_filler_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -573,10 +565,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
 
 def reads_selector_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -592,10 +581,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
 
 def read_composition_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -615,15 +601,14 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
 
 def read_media_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_media_descriptor(&buf, &p)
+        if ret == 0:
+            ret = read_end(&buf)
 
     if ret < 0:
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
@@ -635,15 +620,14 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
 
 def read_did_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_did_descriptor(&buf, &p)
+        if ret == 0:
+            ret = read_end(&buf)
 
     if ret < 0:
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
@@ -656,10 +640,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
 
 def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -676,10 +657,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
 
 def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -687,6 +665,8 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
         p.refs.reserve(8)
         p.ints.reserve(12)
         ret = read_trackeffect(&buf, &p)
+        if ret == 0:
+            ret = read_end(&buf)
 
     if ret < 0:
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
@@ -698,10 +678,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
 
 def read_effectparamlist_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index b9fc499..ce2c925 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -40,6 +40,7 @@ struct Buffer {
     const uint8_t *ptr;
     const uint8_t *end;
     const char *error_message;
+    bool failed;
 };
 
 enum StringType {
@@ -165,10 +166,17 @@ struct Properties {
     vector<BytesData> bytearrays;
 };
 
+static inline void fail(Buffer *f, const char *message)
+{
+    f->failed = true;
+    f->error_message = message;
+}
+
 static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
+    fail(f, "unexpected end of data");
     return 0;
 }
 
@@ -187,6 +195,13 @@ static inline uint8_t read_u8(Buffer *f)
         return -1; \
     } \
 
+// fails if there isn't enough data left for count items of at least item_size bytes
+#define check_count(f, count, item_size) \
+    if ((uint64_t)(count) > (uint64_t)(f->end - f->ptr + 1) / (item_size)) { \
+        fail(f, "unexpected end of data"); \
+        return -1; \
+    } \
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -226,18 +241,39 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    // too large for a double
+    if (exp10 < -308 || exp10 > 308) {
+        fail(f, "bad exponent");
+        return 0.0;
+    }
+
     if (exp10 < 0)
         return mantissa / pow(10.0, -(int)exp10);
     return mantissa * pow(10.0, (int)exp10);
 }
 
-static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
+// the last tag of a object, nothing should follow it
+static inline int read_end(Buffer *f)
+{
+    read_assert_tag(f, 0x03);
+    if (f->failed)
+        return -1;
+    if (f->ptr <= f->end) {
+        fail(f, "unexpected data after the end");
+        return -1;
+    }
+    return 0;
+}
+
+static inline int read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    check_count(f, size, 1);
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
     }
+    return 0;
 }
 
 static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
@@ -263,11 +299,10 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
+     if (f->ptr <= f->end && *f->ptr == 0x01) {
+        f->ptr++;
         return true;
-
-     f->ptr--;
+     }
      return false;
 }
 
@@ -460,11 +495,12 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
     uint32_t count = read_u32le(f);
+    check_count(f, count, 4);
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
@@ -473,13 +509,11 @@ static int read_sequence(Buffer *f, Properties *p)
         reflist.data.push_back(read_u32le(f));
     }
 
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -489,17 +523,16 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
-    read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -515,7 +548,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -524,23 +557,32 @@ static int read_sourceclip(Buffer *f, Properties *p)
         }
     }
 
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_int(p, "interp_kind", (int32_t)read_u32le(f));
 
-    ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
+    uint16_t value_type_id = read_u16le(f);
+    if (value_type_id != CP_TYPE_INT && value_type_id != CP_TYPE_DOUBLE && value_type_id != CP_TYPE_REFERENCE) {
+        fprintf(stderr, "unknown value_type: %d\n", value_type_id);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+    ControlPointValueType value_type = (ControlPointValueType)value_type_id;
     add_int(p, "value_type", value_type);
 
-    uint32_t point_count = read_u32le(f);
+    int32_t point_count = (int32_t)read_u32le(f);
+    if (point_count < 0) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+    check_count(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -549,7 +591,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     cp_data->value_type = value_type;
     cp_data->data.resize(point_count);
 
-    for (size_t i=0; i < point_count; i++) {
+    for (int32_t i=0; i < point_count; i++) {
         ControlPoint *cp = &cp_data->data[i];
         cp->offset_num = (int32_t)read_u32le(f);
         cp->offset_den = (int32_t)read_u32le(f);
@@ -571,7 +613,12 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
 
-        uint16_t pp_count = read_u16le(f);
+        int16_t pp_count = (int16_t)read_u16le(f);
+        if (pp_count < 0) {
+            f->error_message = ASSERT_MESSAGE;
+            return -1;
+        }
+        check_count(f, pp_count, 8);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -608,9 +655,7 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
     }
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 
 static int read_paramitem(Buffer *f, Properties *p)
@@ -654,26 +699,23 @@ static int read_paramitem(Buffer *f, Properties *p)
                 return -1;
         }
     }
-    read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_int(p, "relative_scope", (int16_t)read_u16le(f));
     add_int(p, "relative_track", (int16_t)read_u16le(f));
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -682,6 +724,9 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
     int32_t track_count =  (int32_t)read_u32le(f);
+    if (track_count < 0)
+        track_count = 0;
+    check_count(f, track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -753,7 +798,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -791,21 +836,24 @@ static int read_trackeffect(Buffer *f, Properties *p)
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
-
-    read_assert_tag(f, 0x03);
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected",  selected);
+    if (selected >= p->children[0].data.size()) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
-    return 0;
+    return read_end(f);
 }
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -827,7 +875,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -836,9 +884,7 @@ static int read_composition(Buffer *f, Properties *p)
         }
     }
 
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 
 static int read_media_descriptor(Buffer *f,  Properties *p)
@@ -866,7 +912,7 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
         } else if (tag== 0x02) {
             read_assert_tag(f, 65);
             vector<uint8_t> &data = add_bytearray(p, "wchar");
-            read_data32(f, data);
+            check(read_data32(f, data));
         } else if (tag == 0x03 ) {
             read_assert_tag(f, 72);
             add_object_ref(p, "attributes", read_u32le(f));
@@ -896,7 +942,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -923,8 +969,11 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
-    size_t line_map_byte_size = read_u32le(f);
-    for (size_t i = 0; i < line_map_byte_size/4; i++) {
+    int32_t line_map_byte_size = (int32_t)read_u32le(f);
+    if (line_map_byte_size < 0)
+        line_map_byte_size = 0;
+    check_count(f, line_map_byte_size/4, 4);
+    for (int32_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
 
@@ -1104,7 +1153,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1136,8 +1185,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
                 return -1;
         }
     }
-    read_assert_tag(f, 0x03);
-    return 0;
+    return read_end(f);
 }
 
 static int read_effectparamlist(Buffer *f, Properties *p)
@@ -1148,8 +1196,11 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     add_int(p, "orig_length",    (int32_t)read_u32le(f));
     add_int(p, "window_offset",  (int32_t)read_u32le(f));
 
-    uint32_t parameter_count = read_u32le(f);
+    int32_t parameter_count = (int32_t)read_u32le(f);
+    if (parameter_count < 0)
+        parameter_count = 0;
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
+    check_count(f, parameter_count, 102);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -1158,7 +1209,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     vector <Properties> &parameters = child.data;
     parameters.resize(parameter_count);
 
-    for (size_t i = 0; i < parameter_count; i++) {
+    for (int32_t i = 0; i < parameter_count; i++) {
 
         Properties &param = parameters[i];
         param.type = PARAM;
@@ -1202,6 +1253,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
         uint32_t color_count =read_u32le(f);
+        check_count(f, color_count, 4);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
@@ -1209,20 +1261,14 @@ static int read_effectparamlist(Buffer *f, Properties *p)
             colors.push_back((int32_t)read_u32le(f));
         }
 
-        uint32_t param_size = read_u32le(f);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
-        user_param.resize(param_size);
-        for (size_t j=0; j < param_size; j++) {
-            user_param[j] = read_u8(f);
-        }
+        check(read_data32(f, user_param));
 
         add_bool(&param, "selected",   read_bool(f));
 
     }
 
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
 
 static int read_attributes(Buffer *f, std::vector<AttrData> &d)
@@ -1232,14 +1278,11 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_count(f, attr_count, 8);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1253,16 +1296,13 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 ptr->value = read_u32le(f);
                 break;
             case BOB_ATTR:
-                read_data32(f, ptr->data);
+                check(read_data32(f, ptr->data));
                 break;
             default:
                 fprintf(stderr, "unknown attr type: %d\n", (uint32_t)ptr->type);
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
-    read_assert_tag(f, 0x03);
-
-    return 0;
+    return read_end(f);
 }
-- 
2.43.0


From 3cf68cf7de5f64b485768b77e8684ef4c67fd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 38/47] fix: native readers give other values than the
 reference readers for unsigned words, empty names, padded text and control
 points

---
 src/avb/_ext.pyx      | 47 +++++++++++++++++++++++--------------------
 src/avb/_ext_core.cpp | 11 +++++-----
 2 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index d053250..25d0e1c 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -35,7 +35,8 @@ cdef extern from "" namespace "Properties":
 cdef extern from "_ext_core.cpp" nogil:
     cdef enum StringType:
         MACROMAN,
-        UTF8
+        UTF8,
+        MACROMAN_OR_NONE
 
     cdef enum PropertyType:
         TRKG,
@@ -214,11 +215,11 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -232,7 +233,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
@@ -294,20 +295,26 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef object string2unicode(vector[uint8_t] &data):
     cdef const char * ptr
+    cdef size_t data_size = data.size()
+
+    if data_size == 0:
+        return u""
+
+    ptr = <const char *>&data[0]
+    return ptr[:data_size].strip(b'\x00').decode("macroman")
 
+cdef void strings2dict(dict d, Properties *p):
     cdef StringData item
-    cdef size_t data_size;
 
     for item in p.strings:
-        data_size = item.data.size()
+        value = string2unicode(item.data)
 
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        else:
-            d[item.name.decode('utf-8')] = u""
+        if item.type == MACROMAN_OR_NONE:
+            value = value or None
+
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -351,7 +358,10 @@ cdef void bytearray2dict(dict d, Properties *p):
     cdef size_t size
     for item in p.bytearrays:
         size = item.data.size()
-        if size:
+        if item.name == b'compress_method':
+            ptr = &item.data[0]
+            d[item.name.decode('utf-8')] = <bytes> ptr[:size]
+        elif size:
             ptr = &item.data[0]
             d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
         else:
@@ -428,12 +438,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = string2unicode(item.data)
 
         elif item.type == OBJ_ATTR:
             value = utils.AVBObjectRef(root, item.value)
@@ -446,9 +451,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[string2unicode(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index ce2c925..ac1efef 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -46,6 +46,7 @@ struct Buffer {
 enum StringType {
     MACROMAN,
     UTF8,
+    MACROMAN_OR_NONE,
 };
 
 enum AttrType {
@@ -465,12 +466,12 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN_OR_NONE);
+    add_string(p, f, "effect_id", MACROMAN_OR_NONE);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
@@ -864,7 +865,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1159,7 +1160,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From 243fce5e5e7fce6cfc251dc140c849951a5b21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 39/47] fix: changes to the components of a natively read
 sequence are lost

---
 src/avb/_ext.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 25d0e1c..8fbd1e5 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -479,6 +479,8 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
+    # the sequence is modified when its list is
+    result['components'].parent = object_instance
 
     object_instance.property_data = result
 
-- 
2.43.0


From a4d608111ed799d171f04ea855ee4ce519b1473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 40/47] fix: native readers accept references to objects that
 are not in the file and swallow errors

---
 src/avb/_ext.pyx | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 8fbd1e5..9a99480 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -174,21 +174,27 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef object object_ref(object root, uint32_t index):
+    ref = AVBObjectRef(root, index)
+    if not root.check_refs or ref.valid:
+        return ref
+    raise ValueError("bad index: %d" % index)
+
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
-        reflist.extend(item.data)
+        reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -223,7 +229,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -247,7 +253,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -256,23 +262,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -284,7 +290,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -305,7 +311,7 @@ cdef object string2unicode(vector[uint8_t] &data):
     ptr = <const char *>&data[0]
     return ptr[:data_size].strip(b'\x00').decode("macroman")
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef StringData item
 
     for item in p.strings:
@@ -316,7 +322,7 @@ cdef void strings2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = value
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -340,7 +346,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -352,7 +358,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -441,7 +447,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = string2unicode(item.data)
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
-- 
2.43.0


From e32a6c3426a6dc43a01055f5a48aeeb300f76f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:10 +0000
Subject: [PATCH 41/47] fix: printing a composition with an unknown mob type
 raised ValueError

---
 src/avb/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index ce074b8..791abe4 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -321,8 +321,11 @@ class AVBObject(object):
         if 'name' in self.property_data and self.name:
             s += " " + self.name
 
-        if self.class_id == b'CMPO' and self.mob_type:
-            s += " " + self.mob_type
+        if self.class_id == b'CMPO' and 'mob_type_id' in self.property_data:
+            try:
+                s += " " + self.mob_type
+            except ValueError:
+                s += " mob_type_id: " + str(self.mob_type_id)
 
         if 'effect_id' in self.property_data and self.effect_id:
 
-- 
2.43.0


From ed4118aabd8bfac404bf53ebd065c217dd60e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:10 +0000
Subject: [PATCH 42/47] fix: a failed opening left the file it had opened open

---
 src/avb/file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index a83dad4..37127ce 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -126,6 +126,14 @@ class AVBFile(object):
         else:
             self.f = io.open(fileobject, 'rb', buffering=buffering)
 
+        try:
+            self.setup_file(use_ext)
+        except:
+            if self.f is not fileobject:
+                self.f.close()
+            raise
+
+    def setup_file(self, use_ext):
         f = self.f
         file_bytes = f.read(2)
         self.fast_readers = {}
-- 
2.43.0


From 939e844ef9f3ac0332d8b08e926f19f73ef0b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:10 +0000
Subject: [PATCH 43/47] fix: listing the mobs of a bin with an item that has no
 mob raised AttributeError

---
 src/avb/bin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 853c07e..936e37a 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -408,17 +408,17 @@ class Bin(core.AVBObject):
 
     def toplevel(self):
         for mob in self.mobs:
-            if  mob.mob_type in ('CompositionMob', ) and mob.usage_code == 0:
+            if mob is not None and mob.mob_type in ('CompositionMob', ) and mob.usage_code == 0:
                 yield mob
 
     def compositionmobs(self):
         for mob in self.mobs:
-            if  mob.mob_type in ('CompositionMob', ):
+            if mob is not None and mob.mob_type in ('CompositionMob', ):
                 yield mob
 
     def mastermobs(self):
         for mob in self.mobs:
-            if  mob.mob_type in ('MasterMob', ):
+            if mob is not None and mob.mob_type in ('MasterMob', ):
                 yield mob
 
 
-- 
2.43.0


From 2a405545866b0107f0c044223b741ce1f28069d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:38 +0000
Subject: [PATCH 44/47] fix: saving objects that are referred to many times
 took exponential time

---
 src/avb/core.py | 10 +++++++---
 src/avb/file.py |  8 +++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 791abe4..0d206fb 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -211,7 +211,11 @@ def copy_value(value, root):
     # values like MobIDs, bytearrays and dicts can be modified
     return copy.deepcopy(value)
 
-def walk_references(obj):
+def walk_references(obj, done=None):
+    # done(obj) tells if obj and what it refers to can be left out
+
+    if done and done(obj):
+        return
 
     if isinstance(obj, list):
         property_values = obj
@@ -230,11 +234,11 @@ def walk_references(obj):
 
         if isinstance(v, list):
             for item in v:
-                for sub_v in walk_references(item):
+                for sub_v in walk_references(item, done):
                     yield sub_v
 
         if hasattr(v, 'class_id') and v.class_id:
-            for sub_v in walk_references(v):
+            for sub_v in walk_references(v, done):
                 yield sub_v
 
     if hasattr(obj, 'class_id') and obj.class_id:
diff --git a/src/avb/file.py b/src/avb/file.py
index 37127ce..5a77270 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -394,10 +394,16 @@ class AVBFile(object):
         self.ref_mapping = {}
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
+
+        def written(obj):
+            # objects can be referred to many times
+            return (getattr(obj, 'class_id', None) and obj.root is self and
+                    obj.instance_id in self.ref_mapping)
+
         try:
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
-                for obj in walk_references(self.content):
+                for obj in walk_references(self.content, written):
                     if obj.root is not self:
                         # instance ids only mean something in their own file
                         raise ValueError("object is from different file: " + str(obj))
-- 
2.43.0


From b5d72cdba454451eeb2cceb4d4765cd29a898764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:19 +0000
Subject: [PATCH 45/47] fix: read outside of asserts, so that python -O can
 open files

---
 src/avb/essence.py |  6 ++++--
 src/avb/file.py    | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index c4cfd07..ade4667 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -251,7 +251,8 @@ class WaveDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x02)
         ctx.read_assert_tag(f, 0x01)
 
-        assert f.read(4) == b'RIFF'
+        magic = f.read(4)
+        assert magic == b'RIFF'
 
         # NOTE: this is suppose to be LE
         size = ctx.read_u32le(f)
@@ -284,7 +285,8 @@ class AIFCDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x02)
         ctx.read_assert_tag(f, 0x01)
 
-        assert f.read(4) == b'FORM'
+        magic = f.read(4)
+        assert magic == b'FORM'
 
         # NOTE: this is suppose to be BE
         size = ctx.read_u32be(f)
diff --git a/src/avb/file.py b/src/avb/file.py
index 5a77270..a90a78b 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -154,9 +154,13 @@ class AVBFile(object):
 
         pos = f.tell()
 
-        assert ctx.read_fourcc(f) == b'OBJD'
-        assert ctx.read_string(f) == u'AObjDoc'
-        assert ctx.read_u8(f) == 0x04
+        # NOTE: no reading inside asserts, python -O would skip it
+        class_id = ctx.read_fourcc(f)
+        assert class_id == b'OBJD'
+        doc_type = ctx.read_string(f)
+        assert doc_type == u'AObjDoc'
+        version = ctx.read_u8(f)
+        assert version == 0x04
 
         last_save_str = ctx.read_string(f)
         num_objects = ctx.read_u32(f)
@@ -170,8 +174,10 @@ class AVBFile(object):
         # skip 4 bytes
         f.read(4)
 
-        assert ctx.read_fourcc(f) == b'ATob'
-        assert ctx.read_fourcc(f) == b'ATve'
+        class_id = ctx.read_fourcc(f)
+        assert class_id == b'ATob'
+        class_id = ctx.read_fourcc(f)
+        assert class_id == b'ATve'
 
         self.creator_version = ctx.read_string(f)
 
-- 
2.43.0


From 856129cf9d6171a9e42485215fba10965fd93999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 46/47] fix: listing dependant mobs of shared objects took
 exponential time

---
 src/avb/trackgroups.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 1db64ba..dec8930 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -246,8 +246,15 @@ class TrackGroup(Component):
 
             active.add(mob_id)
             children_processed = True
+            # objects can be referred to many times
+            seen = set()
 
-            for obj in walk_references(mob):
+            def done(obj):
+                return (getattr(obj, 'class_id', None) and
+                        (id(obj.root), obj.instance_id) in seen)
+
+            for obj in walk_references(mob, done):
+                seen.add((id(obj.root), obj.instance_id))
                 if isinstance(obj, SourceClip):
                     ref_mob = obj.mob
                     if not ref_mob:
-- 
2.43.0


From f7181d7cc7696337963a3a84ca16836d2ddd4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 47/47] fix: looking up mobs the bin doesn't have read the
 whole bin again each time

---
 src/avb/bin.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 936e37a..d3aa3f3 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -380,13 +380,15 @@ class Bin(core.AVBObject):
         if mob is not None and self.items == self._mob_items and item.mob is mob and mob.mob_id == mob_id:
             return mob
 
-        # build mob_id dictionary
-        self._mob_dict = {}
-        self._mob_items = list(self.items)
+        # build mob_id dictionary, the last one keeps its mobs from being read again
+        mob_dict = {}
         for item in self.items:
             mob = item.mob
             if hasattr(mob, 'mob_id'):
-                self._mob_dict[mob.mob_id] = (item, mob)
+                mob_dict[mob.mob_id] = (item, mob)
+
+        self._mob_dict = mob_dict
+        self._mob_items = list(self.items)
 
         return self._mob_dict.get(mob_id, (None, None))[1]
 
-- 
2.43.0

