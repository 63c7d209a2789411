From 211f9171d6b20e386fb2b09c167b1d40fc6d05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 01/41] fix: use big-endian byte order for doubles in
 big-endian files

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..35fac2d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From dd819f7781122042efb3c26811317ea96ffcdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 02/41] fix: store and read decimal rates exactly instead of
 truncating them

---
 src/avb/_ext_core.cpp |  4 ++++
 src/avb/ioctx.py      | 25 ++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..55a00ac 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -226,6 +226,10 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    // dividing gives the double nearest to the decimal value
+    if (exp10 < 0)
+        return mantissa / pow(10.0, -(int)exp10);
+
     return mantissa * pow(10.0, (int)exp10);
 }
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 35fac2d..85b23ce 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -14,7 +14,7 @@ from .utils import AVBObjectRef
 from .mobid import MobID
 
 exp10_pretty = {
-5994: (59940, -3),
+(5994, -2): (59940, -3),
 }
 
 class AVBIOContext(object):
@@ -129,25 +129,28 @@ class AVBIOContext(object):
         mantissa = self.read_s32(f)
         exp10 = self.read_s16(f)
 
+        # dividing gives the float nearest to the decimal value
+        if exp10 < 0:
+            return mantissa / float(10 ** -exp10)
         return float(mantissa) * pow(10, exp10)
 
     def write_exp10_encoded_float(self, f, value):
+        # use the fewest decimal places, up to 6, that hold the value
         exponent = 0
-        while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
-                break
+        mantissa = int(round(value))
+        while mantissa / float(10 ** -exponent) != value:
             if exponent <= -6:
                 break
-            value *= 10
+            scaled = value * 10 ** (1 - exponent)
+            if abs(scaled) >= 0x7FFFFFFF:
+                break
             exponent -= 1
+            mantissa = int(round(scaled))
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
-        else:
-            self.write_s32(f, int(value))
-            self.write_s16(f, exponent)
+        mantissa, exponent = exp10_pretty.get((mantissa, exponent), (mantissa, exponent))
+        self.write_s32(f, mantissa)
+        self.write_s16(f, exponent)
 
 
     def read_string(self, f, encoding = 'macroman'):
-- 
2.43.0


From a5e50cbe6c1463f3456b99fd94c5fd4e15a75d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 03/41] fix: allow creating an ASPIPlugin like every other
 object

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..b696807 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__(self)
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From d0ca7fa051388bdafc9408c1fdcf27820cc2ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 04/41] fix: save audio suite effects whose mob id words have
 the top bit set

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index b696807..199213e 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From a84494bea766fb5f35a60ee0f43cf037fa821ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 05/41] fix: read back every plugin of an audio suite effect

---
 src/avb/trackgroups.py | 53 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 199213e..edb6444 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -458,40 +458,39 @@ class AudioSuitePluginEffect(TrackEffect):
 
         number_of_plugins = ctx.read_s32(f)
 
-        #TODO: find sample with multiple plugins
-        assert number_of_plugins == 1
-
-        plugin = ASPIPlugin.__new__(ASPIPlugin, root=self.root)
-        plugin.name = ctx.read_string(f)
-        plugin.manufacturer_id = ctx.read_u32(f)
-        plugin.product_id = ctx.read_u32(f)
-        plugin.plugin_id = ctx.read_u32(f)
-        # print(peek_data(f).encode("hex"))
-        num_of_chunks = ctx.read_s32(f)
+        assert number_of_plugins >= 0
+        for n in range(number_of_plugins):
+            plugin = ASPIPlugin.__new__(ASPIPlugin, root=self.root)
+            plugin.name = ctx.read_string(f)
+            plugin.manufacturer_id = ctx.read_u32(f)
+            plugin.product_id = ctx.read_u32(f)
+            plugin.plugin_id = ctx.read_u32(f)
+            # print(peek_data(f).encode("hex"))
+            num_of_chunks = ctx.read_s32(f)
 
-        #TODO: find sample with multiple chunks
-        # print('chunks', num_of_chunks)
-        assert num_of_chunks >= 0
-        plugin.chunks = []
-        for i in range(num_of_chunks):
+            #TODO: find sample with multiple chunks
+            # print('chunks', num_of_chunks)
+            assert num_of_chunks >= 0
+            plugin.chunks = []
+            for i in range(num_of_chunks):
 
-            chunk_size = ctx.read_s32(f)
-            assert chunk_size >= 0
+                chunk_size = ctx.read_s32(f)
+                assert chunk_size >= 0
 
-            chunk = ASPIPluginChunk.__new__(ASPIPluginChunk, root=self.root)
-            chunk.version = ctx.read_s32(f)
-            chunk.manufacturer_id = ctx.read_u32(f)
-            chunk.product_id = ctx.read_u32(f)
-            chunk.plugin_id = ctx.read_u32(f)
+                chunk = ASPIPluginChunk.__new__(ASPIPluginChunk, root=self.root)
+                chunk.version = ctx.read_s32(f)
+                chunk.manufacturer_id = ctx.read_u32(f)
+                chunk.product_id = ctx.read_u32(f)
+                chunk.plugin_id = ctx.read_u32(f)
 
-            chunk.chunk_id = ctx.read_u32(f)
-            chunk.name = ctx.read_string(f)
+                chunk.chunk_id = ctx.read_u32(f)
+                chunk.name = ctx.read_string(f)
 
-            chunk.data = bytearray(f.read(chunk_size))
+                chunk.data = bytearray(f.read(chunk_size))
 
-            plugin.chunks.append(chunk)
+                plugin.chunks.append(chunk)
 
-        self.plugins.append(plugin)
+            self.plugins.append(plugin)
 
         # print(peek_data(f).encode("hex"))
 
-- 
2.43.0


From e173a081fffe0ffc126170e502b996171893c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 06/41] fix: save bin references that have no utf-8 name

---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From 06f09614a77bf0112e3ca36851aaf24db26d18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 07/41] fix: write the unsigned sub frame alignment as it is
 read

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..c9bbf49 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 5802ce7474c114cabc19a223b44b1609700b5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 08/41] fix: end data descriptors with the end of object marker

---
 src/avb/essence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index c9bbf49..38126e7 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -1337,6 +1337,9 @@ class DataDescriptor(MediaFileDescriptor):
         self.min_sample_size = ctx.read_s32(f)
         self.max_sample_size = ctx.read_s32(f)
 
+        if self.class_id[:] == b'DATD':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(DataDescriptor, self).write(f)
         ctx = self.root.octx
@@ -1349,6 +1352,9 @@ class DataDescriptor(MediaFileDescriptor):
         ctx.write_s32(f, self.min_sample_size)
         ctx.write_s32(f, self.max_sample_size)
 
+        if self.class_id[:] == b'DATD':
+            ctx.write_u8(f, 0x03)
+
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
-- 
2.43.0


From 792d1256c6d4324c3fd4427df9ba456eebf73cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 09/41] fix: compiled readers: read signed fields as signed

---
 src/avb/_ext.pyx      | 4 ++--
 src/avb/_ext_core.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..950496a 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -216,7 +216,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -230,7 +230,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 55a00ac..059e0cc 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -432,7 +432,7 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
@@ -818,7 +818,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1112,7 +1112,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From 31854644ccbe5dba2c56cb0fd7dd3e98059b4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 10/41] fix: compiled readers: refuse references outside the
 file

---
 src/avb/_ext.pyx | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 950496a..d94d6e8 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -171,21 +171,27 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef object object_ref(object root, uint32_t index):
+    ref = AVBObjectRef(root, index)
+    if not root.check_refs or ref.valid:
+        return ref
+    raise ValueError("bad index: %d" % index)
+
+cdef refs2dict(object root, dict d, Properties* p):
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef reflist2dict(object root, dict d, Properties* p):
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
-        reflist.extend(item.data)
+        reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef controlpoints2dict(object root, dict d, Properties* p):
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -220,7 +226,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -244,7 +250,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef ints2dict(dict d, Properties* p):
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -253,23 +259,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef dates2dict(dict d, Properties* p):
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef doubles2dict(dict d, Properties *p):
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef bools2dict(dict d,  Properties *p):
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef uuid2dict(dict d, Properties *p):
     cdef bytes data
 
     cdef BytesData item
@@ -281,7 +287,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef mob_id2dict(dict d, Properties *p):
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -292,7 +298,7 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef strings2dict(dict d, Properties *p):
     cdef const char * ptr
 
     cdef StringData item
@@ -307,7 +313,7 @@ cdef void strings2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = u""
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef children2dict(object root, dict d, Properties *p):
     cdef ChildData item
     cdef Properties child_properties
 
@@ -331,7 +337,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef int_array2dict(dict d, Properties *p):
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -343,7 +349,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef bytearray2dict(dict d, Properties *p):
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -426,7 +432,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
                 value = ""
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
-- 
2.43.0


From c9591efd1308cbfb9de0af03ba12740f8ef3c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 11/41] fix: compiled readers: read strings as the python
 readers do

---
 src/avb/_ext.pyx      | 34 +++++++++++++++-------------------
 src/avb/_ext_core.cpp |  8 +++++---
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index d94d6e8..1e184cf 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -80,6 +80,7 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct StringData:
         const char *name
         StringType type
+        bint empty_is_none
         vector[uint8_t] data
 
     cdef struct BytesData:
@@ -298,20 +299,22 @@ cdef mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef strings2dict(dict d, Properties *p):
-    cdef const char * ptr
+cdef object decode_string(vector[uint8_t] &data):
+    cdef bytes raw
+    if data.size() == 0:
+        return u""
+    raw = (<const char *>&data[0])[:data.size()]
+    return raw.strip(b'\x00').decode('macroman')
 
+cdef strings2dict(dict d, Properties *p):
     cdef StringData item
-    cdef size_t data_size;
 
     for item in p.strings:
-        data_size = item.data.size()
-
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        else:
-            d[item.name.decode('utf-8')] = u""
+        name = item.name.decode('utf-8')
+        d[name] = decode_string(item.data)
+        # components have no name rather than an empty one
+        if item.empty_is_none and not d[name]:
+            d[name] = None
 
 cdef children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -424,12 +427,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = decode_string(item.data)
 
         elif item.type == OBJ_ATTR:
             value = object_ref(root, item.value)
@@ -442,9 +440,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[decode_string(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 059e0cc..1bd2050 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -128,6 +128,7 @@ struct ControlPointData {
 struct StringData {
     const char *name;
     StringType type;
+    bool empty_is_none;
     vector<uint8_t> data;
 };
 
@@ -253,7 +254,7 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool empty_is_none=false)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -261,6 +262,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 
     s.name = name;
     s.type = t;
+    s.empty_is_none = empty_is_none;
     read_data16(f, s.data);
 }
 
@@ -436,8 +438,8 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
-- 
2.43.0


From adefb0557ce8ce201735ecd7a2e31d56fad2d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 12/41] fix: compiled readers: refuse truncated, surplus and
 malformed data

---
 src/avb/_ext.pyx      | 110 +++++++++++++++---------------------------
 src/avb/_ext_core.cpp | 106 +++++++++++++++++++++++++++++-----------
 2 files changed, 116 insertions(+), 100 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 1e184cf..8236d26 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -150,11 +150,19 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef int read_trackeffect(Buffer *f, Properties *p) except+
     cdef int read_selector(Buffer *f, Properties *p) except+
     cdef int read_composition(Buffer *f, Properties *p) except+
-    cdef int read_media_descriptor(Buffer *f, Properties *p) except+
-    cdef int read_did_descriptor(Buffer *f, Properties *p) except+
+    cdef int read_mdes(Buffer *f, Properties *p) except+
+    cdef int read_didd(Buffer *f, Properties *p) except+
     cdef int read_cdci_descriptor(Buffer *f, Properties *p) except+
     cdef int read_effectparamlist(Buffer *f, Properties *p) except+
 
+    cdef int check_end(Buffer *f, int ret)
+
+cdef void init_buffer(Buffer *buf, const unsigned char[:] data):
+    buf.root = &data[0]
+    buf.ptr =  &data[0]
+    buf.end = buf.ptr + data.shape[0]
+    buf.error_message = NULL
+
 cdef class AVBPropertyData(dict):
 
     def deref(self, value):
@@ -399,10 +407,7 @@ cdef dict process_poperties(object root, Properties *p):
 
 def read_attr_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef AttrData item
     cdef vector[AttrData] d
@@ -414,7 +419,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     cdef int ret = 0
 
     with nogil:
-        ret = read_attributes(&buf, d)
+        ret = check_end(&buf, read_attributes(&buf, d))
 
     if ret < 0:
         raise ValueError("Error reading Attributes: %s" % buf.error_message.decode("utf-8"))
@@ -457,15 +462,12 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
 
 def read_sequence_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_sequence(&buf, &p)
+        ret = check_end(&buf, read_sequence(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
@@ -476,15 +478,12 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
 
 def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_sourceclip(&buf, &p)
+        ret = check_end(&buf, read_sourceclip(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
@@ -495,17 +494,14 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         p.refs.reserve(6)
         p.ints.reserve(6)
-        ret = read_paramclip(&buf, &p)
+        ret = check_end(&buf, read_paramclip(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
@@ -517,15 +513,12 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_paramitem(&buf, &p)
+        ret = check_end(&buf, read_paramitem(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
@@ -537,15 +530,12 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
 
 def read_trackref_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_trackref(&buf, &p)
+        ret = check_end(&buf, read_trackref(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
@@ -556,15 +546,12 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
 
 def read_filler_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_filler(&buf, &p)
+        ret = check_end(&buf, read_filler(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
@@ -575,15 +562,12 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
 
 def reads_selector_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_selector(&buf, &p)
+        ret = check_end(&buf, read_selector(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
@@ -594,10 +578,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
 
 def read_composition_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -605,7 +586,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(6)
         p.refs.reserve(7)
         p.strings.reserve(2)
-        ret = read_composition(&buf, &p)
+        ret = check_end(&buf, read_composition(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
@@ -617,15 +598,12 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
 
 def read_media_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_media_descriptor(&buf, &p)
+        ret = check_end(&buf, read_mdes(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
@@ -637,15 +615,12 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
 
 def read_did_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_did_descriptor(&buf, &p)
+        ret = check_end(&buf, read_didd(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
@@ -658,15 +633,12 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
 
 def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_cdci_descriptor(&buf, &p)
+        ret = check_end(&buf, read_cdci_descriptor(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
@@ -678,17 +650,14 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
 
 def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         p.refs.reserve(8)
         p.ints.reserve(12)
-        ret = read_trackeffect(&buf, &p)
+        ret = check_end(&buf, read_trackeffect(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
@@ -700,15 +669,12 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
 
 def read_effectparamlist_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_effectparamlist(&buf, &p)
+        ret = check_end(&buf, read_effectparamlist(&buf, &p))
 
     if ret < 0:
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 1bd2050..b08ec93 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -168,11 +168,17 @@ struct Properties {
 
 static inline uint8_t read_u8(Buffer *f)
 {
-    if (f->ptr <= f->end)
+    if (f->ptr < f->end)
         return *f->ptr++;
+    f->error_message = "unexpected end of data";
     return 0;
 }
 
+static inline size_t bytes_left(Buffer *f)
+{
+    return f->end - f->ptr;
+}
+
 #define S1(x) #x
 #define S2(x) S1(x)
 #define ASSERT_MESSAGE "Assert error: " __FILE__ " : " S2(__LINE__)
@@ -188,6 +194,21 @@ static inline uint8_t read_u8(Buffer *f)
         return -1; \
     } \
 
+// counts are signed, and every item takes up at least one byte
+#define check_count(f, count) \
+    if ((int32_t)(count) < 0 || (uint32_t)(count) > bytes_left(f)) {  \
+        f->error_message = ASSERT_MESSAGE; \
+        return -1; \
+    } \
+
+// an object is read when all of its data is used up
+static inline int check_end(Buffer *f, int ret)
+{
+    if (ret >= 0 && f->error_message == NULL && bytes_left(f) != 0)
+        f->error_message = "data left after the end of the object";
+    return f->error_message == NULL ? ret : -1;
+}
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -237,6 +258,10 @@ static inline double read_exp10_encoded_float(Buffer *f)
 static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    if (size > bytes_left(f)) {
+        f->error_message = "unexpected end of data";
+        return;
+    }
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
@@ -267,12 +292,11 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
-        return true;
+     if (bytes_left(f) == 0 || *f->ptr != 0x01)
+        return false;
 
-     f->ptr--;
-     return false;
+     f->ptr++;
+     return true;
 }
 
 
@@ -464,7 +488,7 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -472,6 +496,7 @@ static int read_sequence(Buffer *f, Properties *p)
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
+    check_count(f, count);
     reflist.data.reserve(count);
     for (size_t i =0; i < count; i++) {
         reflist.data.push_back(read_u32le(f));
@@ -483,7 +508,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -493,7 +518,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -503,7 +528,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -519,7 +544,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -535,7 +560,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -545,6 +570,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
+    check_count(f, point_count);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -575,7 +601,8 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
 
-        uint16_t pp_count = read_u16le(f);
+        int16_t pp_count = read_u16le(f);
+        check_count(f, pp_count);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -664,7 +691,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -677,7 +704,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -686,6 +713,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
     int32_t track_count =  (int32_t)read_u32le(f);
+    check_count(f, track_count);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -757,7 +785,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -790,17 +818,25 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected",  selected);
+
+    if (selected >= p->children[0].data.size()) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
     read_assert_tag(f, 0x03);
 
@@ -809,7 +845,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -831,7 +867,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -900,7 +936,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -928,6 +964,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
     size_t line_map_byte_size = read_u32le(f);
+    check_count(f, line_map_byte_size);
     for (size_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
@@ -1106,9 +1143,23 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_mdes(Buffer *f, Properties *p)
+{
+    check(read_media_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
+static int read_didd(Buffer *f, Properties *p)
+{
+    check(read_did_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1153,6 +1204,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     add_int(p, "window_offset",  (int32_t)read_u32le(f));
 
     uint32_t parameter_count = read_u32le(f);
+    check_count(f, parameter_count);
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
 
     p->children.push_back(Properties::ChildData());
@@ -1206,6 +1258,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
         uint32_t color_count =read_u32le(f);
+        check_count(f, color_count);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
@@ -1214,6 +1267,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         }
 
         uint32_t param_size = read_u32le(f);
+        check_count(f, param_size);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
         user_param.resize(param_size);
         for (size_t j=0; j < param_size; j++) {
@@ -1236,14 +1290,11 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_count(f, attr_count);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1264,7 +1315,6 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From 454c2a68de567a262c3b38dd6880fa708fba9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 13/41] fix: compiled readers: tell reference lists the object
 they belong to

---
 src/avb/_ext.pyx | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 8236d26..8be8bf9 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -191,12 +191,12 @@ cdef refs2dict(object root, dict d, Properties* p):
     for item in p.refs:
         d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef reflist2dict(object root, dict d, Properties* p):
+cdef reflist2dict(object root, object parent, dict d, Properties* p):
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
-        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
+        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
         reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
@@ -372,13 +372,13 @@ cdef bytearray2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
-cdef dict process_poperties(object root, Properties *p):
+cdef dict process_poperties(object root, Properties *p, object parent=None):
     cdef dict result = AVBPropertyData()
 
     if p.refs.size():
         refs2dict(root, result, p)
     if p.reflists.size():
-        reflist2dict(root, result, p)
+        reflist2dict(root, parent, result, p)
     if p.ints.size():
         ints2dict(result, p)
     if p.doubles.size():
@@ -472,7 +472,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -488,7 +488,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -507,7 +507,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -524,7 +524,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -540,7 +540,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -556,7 +556,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -572,7 +572,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -592,7 +592,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -609,7 +609,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -626,7 +626,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -644,7 +644,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
@@ -662,7 +662,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     # print_property_sizes(&p)
     object_instance.property_data = result
@@ -679,7 +679,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     if ret < 0:
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, &p, object_instance)
 
     object_instance.property_data = result
 
-- 
2.43.0


From 09874d13ff96f0e3edcd61792e75818e348c5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 14/41] fix: compiled readers: use the same types for values as
 the python readers

---
 src/avb/_ext.pyx      | 14 +++++++++++---
 src/avb/_ext_core.cpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 8be8bf9..c6c69be 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -138,6 +138,7 @@ cdef extern from "_ext_core.cpp" nogil:
         vector[ControlPointData] control_points
         vector[IntArrayData] arrays
         vector[BytesData] bytearrays
+        vector[BytesData] fourccs
 
     cdef int read_attributes(Buffer *f, vector[AttrData] &d) except+
     cdef int read_comp(Buffer *f, Properties *p) except+
@@ -227,7 +228,7 @@ cdef controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
@@ -368,10 +369,15 @@ cdef bytearray2dict(dict d, Properties *p):
         size = item.data.size()
         if size:
             ptr = &item.data[0]
-            d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
+            d[item.name.decode('utf-8')] = bytearray(<bytes> ptr[:size])
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
+cdef fourccs2dict(dict d, Properties *p):
+    cdef BytesData item
+    for item in p.fourccs:
+        d[item.name.decode('utf-8')] = (<const char *>&item.data[0])[:4]
+
 cdef dict process_poperties(object root, Properties *p, object parent=None):
     cdef dict result = AVBPropertyData()
 
@@ -397,6 +403,8 @@ cdef dict process_poperties(object root, Properties *p, object parent=None):
         int_array2dict(result, p)
     if p.bytearrays.size():
         bytearray2dict(result, p)
+    if p.fourccs.size():
+        fourccs2dict(result, p)
     if p.control_points.size():
         controlpoints2dict(root, result, p)
     if p.children.size():
@@ -441,7 +449,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             data_size = item.data.size()
             if data_size > 0:
                 ptr =  <const char *>&item.data[0]
-                value = <bytearray> ptr[:data_size]
+                value = bytearray(<bytes> ptr[:data_size])
             else:
                 value = bytearray()
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index b08ec93..1773f28 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -164,6 +164,7 @@ struct Properties {
     vector<ControlPointData> control_points;
     vector<IntArrayData> arrays;
     vector<BytesData> bytearrays;
+    vector<BytesData> fourccs;
 };
 
 static inline uint8_t read_u8(Buffer *f)
@@ -450,6 +451,15 @@ static inline vector<uint8_t> & add_bytearray(Properties *p, const char * name)
 }
 
 
+static inline vector<uint8_t> & add_fourcc(Properties *p, const char * name)
+{
+    p->fourccs.push_back(BytesData());
+    BytesData *d = &p->fourccs[p->fourccs.size()-1];
+    d->name = name;
+    d->data.resize(4);
+    return d->data;
+}
+
 static int read_comp(Buffer *f, Properties *p)
 {
     read_assert_tag(f, 0x02);
@@ -975,8 +985,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
     add_object_ref(p, "next_did_desc", read_u32le(f));
 
-    vector<uint8_t> &compress_method = add_bytearray(p, "compress_method");
-    compress_method.resize(4);
+    vector<uint8_t> &compress_method = add_fourcc(p, "compress_method");
     compress_method[3] = read_u8(f);
     compress_method[2] = read_u8(f);
     compress_method[1] = read_u8(f);
-- 
2.43.0


From 65fb66085796e6a05954820cb812eefcec930f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 15/41] fix: reference lists: clear, sort, reverse, slices and
 searches work on the objects

---
 src/avb/core.py | 63 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..be8d2fd 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -78,8 +78,20 @@ class AVBRefList(list):
         return obj
 
     def extend(self, x):
-        super(AVBRefList, self).extend(x)
+        # items up to the one that fails are kept
+        try:
+            super(AVBRefList, self).extend(x)
+        finally:
+            self.mark_modified()
+
+    def __iadd__(self, x):
+        self.extend(x)
+        return self
+
+    def __imul__(self, n):
+        result = super(AVBRefList, self).__imul__(n)
         self.mark_modified()
+        return result
 
     def append(self, x):
         super(AVBRefList, self).append(x)
@@ -89,9 +101,27 @@ class AVBRefList(list):
         super(AVBRefList, self).insert(i, x)
         self.mark_modified()
 
+    def index(self, *args):
+        return list(self).index(*args)
+
+    def count(self, x):
+        return list(self).count(x)
+
+    def __contains__(self, x):
+        return x in list(self)
+
+    def __eq__(self, other):
+        if isinstance(other, list):
+            return list(self) == list(other)
+        return NotImplemented
+
+    def __ne__(self, other):
+        if isinstance(other, list):
+            return list(self) != list(other)
+        return NotImplemented
+
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
-        self.mark_modified()
+        del self[self.index(x)]
 
     def pop(self, i=-1):
         result = self.deref(super(AVBRefList, self).pop(i))
@@ -99,15 +129,13 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
-        self.mark_modified()
+        del self[:]
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
-        self.mark_modified()
+        self[:] = sorted(self, key=key, reverse=reverse)
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
     def deref(self, value):
@@ -119,7 +147,20 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        value = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(item) for item in value]
+        return self.deref(value)
+
+    def __add__(self, other):
+        if isinstance(other, list):
+            return list(self) + list(other)
+        return NotImplemented
+
+    def __mul__(self, n):
+        return list(self) * n
+
+    __rmul__ = __mul__
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
@@ -133,6 +174,10 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From c823abdeda486d27cffd675c67dad0d80de0a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 16/41] fix: attribute maps: resolve references and record
 edits in every method

---
 src/avb/_ext.pyx      |  4 ++++
 src/avb/attributes.py | 16 +++++++++++++++-
 src/avb/core.py       |  4 ++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index c6c69be..02c882d 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -178,6 +178,10 @@ cdef class AVBPropertyData(dict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for key, value in self.items():
+            yield value
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..9d269f7 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -46,10 +46,24 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
 
     def pop(self, *args, **kwargs):
-        result = super(Attributes, self).pop(*args, **kwargs)
+        result = self.deref(super(Attributes, self).pop(*args, **kwargs))
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        key, value = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return key, self.deref(value)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index be8d2fd..d846130 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -46,6 +46,10 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for key, value in self.items():
+            yield value
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-- 
2.43.0


From 9f004dd29a22ffc24709630e8172640823320592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 17/41] fix: save objects in an order that does not depend on
 how properties were set

---
 src/avb/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index d846130..baa6f5f 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -189,7 +189,8 @@ def walk_references(obj):
     elif isinstance(obj, dict):
         property_values = obj.values()
     elif hasattr(obj, 'property_data'):
-        property_values = obj.property_data.values()
+        # declaration order, how the properties were set does not matter
+        property_values = [obj.property_data.get(pdef.name, None) for pdef in obj.propertydefs]
     else:
         property_values = []
 
-- 
2.43.0


From ce8e0e3795669cc657866c778cedcf77bb783a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 18/41] fix: do not share default lists between new objects

---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..4120b4d 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend([dict(column) for column in default_bin_columns])
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index baa6f5f..9239ba1 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -6,6 +6,7 @@ from __future__ import (
     )
 
 import sys
+import copy
 from collections import OrderedDict
 from . import utils
 
@@ -229,7 +230,8 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            # lists are not shared between objects
+            self.__setattr__(pdef.name, copy.copy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From 407892b77f3331ae19dc52b3a8f08535774d9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 19/41] fix: copies have exactly what their source has and
 share nothing with it

---
 src/avb/attributes.py |  2 +-
 src/avb/core.py       | 32 ++++++++++++++------------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 9d269f7..8d37305 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -76,7 +76,7 @@ class Attributes(AVBPropertyData):
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
             else:
-                obj[key] = value.copy(root)
+                obj[key] = core.copy_value(value, root)
         return obj
 
     def read(self, f):
diff --git a/src/avb/core.py b/src/avb/core.py
index 9239ba1..3c5c3f7 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -79,7 +79,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -183,6 +183,14 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__reversed__():
             yield self.deref(value)
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    elif isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    # everything else is plain data
+    return copy.deepcopy(value)
+
 def walk_references(obj):
 
     if isinstance(obj, list):
@@ -272,24 +280,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # only what the source has, not the defaults of a new object
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 3001d65344fe68f5de67cd03524932c7bc4505d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 20/41] fix: create the class that was asked for

---
 src/avb/file.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..67866a4 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -58,17 +58,17 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        def create_instance(*args, **kwargs):
+            return self.from_name(name, *args, **kwargs)
+        return create_instance
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
@@ -84,9 +84,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From e51a4e0d3f40c4630d1dbc59dba48c051fdd3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 21/41] fix: name new mobs as asked and refuse unknown mob
 types

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index edb6444..e4d2929 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1037,7 +1037,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1047,7 +1047,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 6612e7596f2c87d7524450b448dffd9e710f04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 22/41] fix: refuse to save objects of other files whatever
 their number

---
 src/avb/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 67866a4..dd469df 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -321,8 +321,6 @@ class AVBFile(object):
 
     def write_object(self, f, obj):
         buffer = io.BytesIO()
-        if self.octx != obj.root.octx:
-            raise ValueError("object is from different file: " + str(obj))
         obj.write(buffer)
         data = buffer.getvalue()
         assert data[-1:] == b'\x03'
@@ -351,6 +349,10 @@ class AVBFile(object):
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
+                    # needs to come first, instance_ids are only unique per file
+                    if obj.root is not self:
+                        raise ValueError("object is from different file: " + str(obj))
+
                     if obj.instance_id in self.ref_mapping:
                         continue
 
-- 
2.43.0


From d6d3fe88effabe52971d32a8ee754cfc312e6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 23/41] fix: refuse files whose save did not finish

---
 src/avb/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index dd469df..d85e472 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -148,6 +148,10 @@ class AVBFile(object):
         num_objects = ctx.read_u32(f)
         self.root_index = ctx.read_u32(f)
 
+        # written last, still zero if the save did not finish
+        if self.root_index == 0 or self.root_index > num_objects:
+            raise ValueError("not a complete avb file")
+
         v  = ctx.read_u32(f)
         assert v in (0x49494949, 0x4D4D4D4D)
 
-- 
2.43.0


From f51bfe4bd2d38fb412f2c637e2221b01d2876011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 24/41] fix: do not allocate memory for objects a damaged
 header only announces

---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index d85e472..c0f3418 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -170,16 +170,16 @@ class AVBFile(object):
 
         self.root_chunk = AVBChunk(self, b'OBJD', pos, f.tell() - pos)
 
-        self.object_positions = array.array(str('L'), [0 for i in range(num_objects+1)])
-        self.next_object_id = len(self.object_positions)
+        self.object_positions = array.array(str('L'), [0])
 
         for i in range(num_objects):
-            self.object_positions[i+1] = f.tell()
+            self.object_positions.append(f.tell())
             class_id = f.read(4)
             size = ctx.read_u32(f)
 
             f.seek(size, os.SEEK_CUR)
 
+        self.next_object_id = len(self.object_positions)
         self.content = self.read_object(self.root_index)
 
     def setup_empty(self):
-- 
2.43.0


From c2f7ffb0122abab0c74629e0d40208af4ed29365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 25/41] fix: find the component that starts at the asked time

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..83e4fea 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From ab21c541428aaee1b504e19682be8df881e17706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 26/41] fix: parameter curves: exact at key frames, any range
 can be integrated

---
 src/avb/components.py    | 4 ++--
 src/avb/interpolation.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 83e4fea..ffdbb82 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -713,7 +713,7 @@ class ParamClip(Clip):
         p1 = self.control_points[index]
 
         # clamp if t outside of range
-        if t < p1.time or index + 1 >= len(self.control_points):
+        if t <= p1.time or index + 1 >= len(self.control_points):
             return float(p1.value)
 
         if self.interp == 'ConstantInterp':
@@ -801,7 +801,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..e438224 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = float(start) - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-- 
2.43.0


From 0e44a8b637db4a15605c66df0efbd6c0bed6f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 27/41] fix: dependant_mobs ends on mobs that refer to each
 other

---
 src/avb/trackgroups.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index e4d2929..2379f75 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -230,28 +230,25 @@ class TrackGroup(Component):
             Yields all mobs that this mob is dependant on in depth first order.
         """
 
-        visited = set()
-        stack = [self]
+        # every mob is entered once, mobs may refer to each other
+        entered = set([getattr(self, 'mob_id', None)])
+        stack = [(self, walk_references(self))]
 
         while stack:
-            mob = stack[-1]
-            children_processed = True
+            mob, references = stack[-1]
 
-            for obj in walk_references(mob):
+            for obj in references:
                 if isinstance(obj, SourceClip):
                     ref_mob = obj.mob
-                    if not ref_mob:
+                    if not ref_mob or ref_mob.mob_id in entered:
                         continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
-
-            if children_processed:
+                    entered.add(ref_mob.mob_id)
+                    stack.append((ref_mob, walk_references(ref_mob)))
+                    break
+            else:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
+                if mob is not self:
+                    yield mob
 
 
 @utils.register_class
-- 
2.43.0


From 6b4cc3b95738e3e3a5bc563fcc592cdf9f8ab608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 28/41] fix: look up tracks without number or component

---
 src/avb/components.py  | 6 +++++-
 src/avb/trackgroups.py | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index ffdbb82..d3fddb7 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -323,7 +323,11 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                # not all tracks have a number or a component
+                if getattr(track, 'index', None) != self.track_id:
+                    continue
+                component = getattr(track, 'component', None)
+                if component is not None and self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 2379f75..98cdf7f 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -46,8 +46,9 @@ class Track(core.AVBObject):
 
     @property
     def media_kind(self):
-        if hasattr(self, 'component'):
-            return self.component.media_kind
+        component = getattr(self, 'component', None)
+        if component is not None:
+            return component.media_kind
 
     @property
     def flags(self):
-- 
2.43.0


From 36aeae6dff61b65f13c5185974ce690b2b5d10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 29/41] fix: find_by_mob_id agrees with what the bin contains

---
 src/avb/bin.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 4120b4d..78648b1 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -371,10 +371,21 @@ class Bin(core.AVBObject):
 
     def find_by_mob_id(self, mob_id):
 
+        mob = self._mob_dict.get(mob_id, None)
+
+        # mobs can be removed, replaced or get another id
+        if mob is not None and mob.mob_id == mob_id:
+            for item_mob in self.mobs:
+                if item_mob is mob:
+                    return mob
+
         # build mob_id dictionary
-        if not self._mob_dict:
-            for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
+        self._mob_dict.clear()
+        for mob in self.mobs:
+            # older mobs have no mob_id
+            key = getattr(mob, 'mob_id', None)
+            if key is not None:
+                self._mob_dict[key] = mob
 
         return self._mob_dict.get(mob_id, None)
 
@@ -383,9 +394,6 @@ class Bin(core.AVBObject):
         bin_item.mob = mob
         self.items.append(bin_item)
 
-        if self._mob_dict:
-            self._mob_dict[mob.mob_id] = mob
-
         return bin_item
 
     @property
-- 
2.43.0


From 42eb12ce23b18835e7988bbabe3062366d69e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 30/41] fix: refuse negative counts in malformed objects

---
 src/avb/attributes.py  | 2 ++
 src/avb/bin.py         | 1 +
 src/avb/components.py  | 1 +
 src/avb/essence.py     | 3 +++
 src/avb/misc.py        | 5 +++++
 src/avb/trackgroups.py | 1 +
 6 files changed, 13 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 8d37305..d1b18a9 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -153,6 +153,7 @@ class ParameterList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
@@ -181,6 +182,7 @@ class TimeCrumbList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
diff --git a/src/avb/bin.py b/src/avb/bin.py
index 78648b1..dafcf79 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -283,6 +283,7 @@ class Bin(core.AVBObject):
             self.sifted_settings.append(s)
 
         sort_column_count = ctx.read_s16(f)
+        assert sort_column_count >= 0
         self.sort_columns = []
         for i in range(sort_column_count):
             direction = ctx.read_u8(f)
diff --git a/src/avb/components.py b/src/avb/components.py
index d3fddb7..3d6f6f5 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -870,6 +870,7 @@ class ControlClip(Clip):
 
         self.interp_kind = ctx.read_s32(f)
         count = ctx.read_s32(f)
+        assert count >= 0
         self.control_points = []
         # print(self.interp_kind, count)
         #
diff --git a/src/avb/essence.py b/src/avb/essence.py
index 38126e7..d64ec3c 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -52,6 +52,7 @@ class MediaDescriptor(core.AVBObject):
                 # this is utf-16 string data
                 ctx.read_assert_tag(f, 65)
                 size = ctx.read_s32(f)
+                assert size >= 0
                 self.wchar = bytearray(f.read(size))
             elif tag == 0x03:
                 ctx.read_assert_tag(f, 72)
@@ -217,6 +218,7 @@ class MultiDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.descriptors = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -590,6 +592,7 @@ class DIDDescriptor(MediaFileDescriptor):
         self.aspect_ratio = [numerator, denominator]
 
         line_map_byte_size = ctx.read_s32(f)
+        assert line_map_byte_size >= 0 and line_map_byte_size % 4 == 0
         self.line_map = []
         if line_map_byte_size:
             for i in range(line_map_byte_size // 4):
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 6723677..8697397 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -260,6 +260,7 @@ class EffectParamList(core.AVBObject):
 
         count = ctx.read_s32(f)
         self.keyframe_size = ctx.read_s32(f)
+        assert count >= 0
         self.parameters = []
 
         for i in range(count):
@@ -751,6 +752,7 @@ class MPGPosition(DIDPosition):
 
         # NOTE: I think leading_discard_fields == 2 * leader_length
         leader_length = ctx.read_s16(f)
+        assert leader_length >= 0
         if leader_length > 0:
             leading_discard_fields = ctx.read_s16(f)
             for i in range(leader_length):
@@ -992,6 +994,7 @@ class TrackerDataSlot(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.tracker_data = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -1092,10 +1095,12 @@ class TrackerData(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         setting_size = ctx.read_s16(f)
+        assert setting_size >= 0
         self.settings = bytearray(f.read(setting_size))
         self.clip_version = ctx.read_u32(f)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         self.clips = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 98cdf7f..72e304b 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -113,6 +113,7 @@ class TrackGroup(Component):
         self.num_scalars = ctx.read_s32(f)
 
         track_count = ctx.read_s32(f)
+        assert track_count >= 0
         self.tracks = []
         # print("tracks:", track_count)
         # really annoying, tracks can have variable lengths!!
-- 
2.43.0


From a3e212fbe8599f54be94e562dabf17c10ed3673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 31/41] fix: save times in the repeated hour at the end of
 daylight saving

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 85b23ce..4561445 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        # timestamp() knows which of two equal local times is meant
+        if hasattr(d, 'timestamp'):
+            return int(d.replace(microsecond=0).timestamp())
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From f56eb6ab6072b339ac14f03891809f610eff9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 32/41] fix: saving over the opened file keeps what was not
 read yet

---
 src/avb/file.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index c0f3418..3935b4f 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -344,12 +344,26 @@ class AVBFile(object):
         #     print(binascii.hexlify(data))
         #     raise Exception()
 
+    def keep_source(self, path):
+        # saving over the opened file, unread objects are still needed
+        try:
+            if not os.path.samefile(path, self.f.name):
+                return
+        except (AttributeError, TypeError, ValueError, OSError):
+            return
+
+        source = self.f
+        source.seek(0)
+        self.f = io.BytesIO(source.read())
+        source.close()
+
     def write(self, path, byte_order='little'):
         self.next_chunk_id = 0
         self.ref_mapping = {}
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
         try:
+            self.keep_source(path)
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
-- 
2.43.0


From 9366cb57c9c9124a8d3691388a2e00629ce017b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 33/41] fix: refuse values the layouts have no place for

---
 src/avb/bin.py         |  7 ++++---
 src/avb/components.py  |  4 ++++
 src/avb/essence.py     | 22 ++++++++++++++++------
 src/avb/ioctx.py       | 14 ++++++++++++++
 src/avb/misc.py        |  4 ++++
 src/avb/trackgroups.py |  1 +
 6 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index dafcf79..7c14caa 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
@@ -341,8 +341,8 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, self.display_mode)
         ctx.write_bool(f, self.sifted)
 
-        for i in range(6):
-            s = self.sifted_settings[i]
+        ctx.check_length(self.sifted_settings, 6)
+        for s in self.sifted_settings:
             ctx.write_s16(f, s.method)
             ctx.write_string(f, s.string)
             ctx.write_string(f, s.column)
@@ -351,6 +351,7 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, len(self.sort_columns))
 
         for col in self.sort_columns:
+            ctx.check_length(col, 2)
             ctx.write_u8(f, col[0])
             ctx.write_string(f, col[1])
 
diff --git a/src/avb/components.py b/src/avb/components.py
index 3d6f6f5..1e17516 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -631,6 +631,7 @@ class ParamClip(Clip):
         ctx.write_s32(f, len(self.control_points))
 
         for cp in self.control_points:
+            ctx.check_length(cp.offset, 2)
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.timescale)
@@ -915,17 +916,20 @@ class ControlClip(Clip):
 
         ctx.write_s32(f, len(self.control_points))
         for cp in self.control_points:
+            ctx.check_length(cp.offset, 2)
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.time_scale)
 
             ctx.write_bool(f, True)
+            ctx.check_length(cp.value, 2)
             ctx.write_s32(f, cp.value[0])
             ctx.write_s32(f, cp.value[1])
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
                 ctx.write_s16(f, pp.code)
+                ctx.check_length(pp.value, 2)
                 ctx.write_s32(f, pp.value[0])
                 ctx.write_s32(f, pp.value[1])
 
diff --git a/src/avb/essence.py b/src/avb/essence.py
index d64ec3c..7990813 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -795,6 +795,7 @@ class DIDDescriptor(MediaFileDescriptor):
 
         ctx.write_s16(f, self.frame_layout)
 
+        ctx.check_length(self.aspect_ratio, 2)
         ctx.write_s32(f, self.aspect_ratio[0])
         ctx.write_s32(f, self.aspect_ratio[1])
 
@@ -834,7 +835,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.first_frame_offset)
 
-        if hasattr(self, 'client_fill_start'):
+        if hasattr(self, 'client_fill_start') or hasattr(self, 'client_fill_end'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x04)
             ctx.write_u8(f, 71)
@@ -855,7 +856,12 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.frame_start_offset)
 
-        if hasattr(self, 'valid_box') and hasattr(self, 'essence_box') and hasattr(self, 'source_box'):
+        if hasattr(self, 'valid_box') or hasattr(self, 'essence_box') or hasattr(self, 'source_box'):
+            for box in (self.valid_box, self.essence_box, self.source_box):
+                ctx.check_length(box, 4)
+                for point in box:
+                    ctx.check_length(point, 2)
+
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
@@ -922,7 +928,11 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.source_box[3][1])
 
-        if hasattr(self, 'framing_box') and hasattr(self, 'reformatting_option'):
+        if hasattr(self, 'framing_box') or hasattr(self, 'reformatting_option'):
+            ctx.check_length(self.framing_box, 4)
+            for point in self.framing_box:
+                ctx.check_length(point, 2)
+
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
@@ -956,7 +966,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 80)
             ctx.write_raw_uuid(f, self.transfer_characteristic)
 
-        if hasattr(self, 'color_primaries') and hasattr(self, 'coding_equations'):
+        if hasattr(self, 'color_primaries') or hasattr(self, 'coding_equations'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 11)
             ctx.write_u8(f, 80)
@@ -1289,7 +1299,7 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 77)
             ctx.write_u64(f, self.frame_index_offset)
 
-        if hasattr(self, 'has_comp_min_ref'):
+        if any(hasattr(self, name) for name in ('has_comp_min_ref', 'comp_min_ref', 'has_comp_max_ref', 'comp_max_ref')):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x02)
             ctx.write_u8(f, 66)
@@ -1304,7 +1314,7 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 72)
             ctx.write_u32(f, self.comp_max_ref)
 
-        if hasattr(self, 'alpha_min_ref'):
+        if hasattr(self, 'alpha_min_ref') or hasattr(self, 'alpha_max_ref'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x03)
             ctx.write_u8(f, 72)
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 4561445..b3ddb3e 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -126,6 +126,12 @@ class AVBIOContext(object):
         else:
             AVBIOContext.write_u8(f, 0x00)
 
+    # the layouts have no place for more or fewer values
+    @staticmethod
+    def check_length(value, length):
+        if len(value) != length:
+            raise ValueError("expected %d values: %s" % (length, value))
+
     # complex data types
 
     def read_exp10_encoded_float(self, f):
@@ -176,6 +182,12 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # reading strips null bytes and takes the size 65535 for an empty string
+        if size >= 65535:
+            raise ValueError("string too long: %d" % size)
+        if s.strip(u'\x00') != s:
+            raise ValueError("string starts or ends with a null character")
+
         self.write_u16(f, size)
         f.write(data)
 
@@ -308,6 +320,7 @@ class AVBIOContext(object):
         return [a,b,c,d]
 
     def write_rect(self, f, v):
+        self.check_length(v, 4)
         self.write_s16(f, 1)
         self.write_s16(f, v[0])
         self.write_s16(f, v[1])
@@ -324,6 +337,7 @@ class AVBIOContext(object):
         return [r,g,b]
 
     def write_rgb_color(self, f, v):
+        self.check_length(v, 3)
         self.write_s16(f, 1)
         self.write_u16(f, v[0])
         self.write_u16(f, v[1])
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 8697397..9df3140 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -354,6 +354,7 @@ class EffectParamList(core.AVBObject):
             ctx.write_s32(f, p.crop_top)
             ctx.write_s32(f, p.crop_bottom)
 
+            ctx.check_length(p.box, 4)
             # boxTop
             ctx.write_s32(f, p.box[0])
             # boxBottom
@@ -427,6 +428,8 @@ class CFUserParam(core.AVBObject):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # always little endian
+        assert getattr(self, 'byte_order', 0x4949) == 0x4949
         ctx.write_s16(f, 0x4949)
 
         ctx.write_raw_uuid(f, self.uuid)
@@ -934,6 +937,7 @@ class Marker(MobRef):
         #version
         ctx.write_s16(f, 1)
 
+        ctx.check_length(self.color, 3)
         for c in self.color:
             ctx.write_u16(f, c)
 
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 72e304b..06ab092 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -807,6 +807,7 @@ class MotionEffect(TimeWarp):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x03)
 
+        ctx.check_length(self.speed_ratio, 2)
         ctx.write_s32(f, self.speed_ratio[0])
         ctx.write_s32(f, self.speed_ratio[1])
 
-- 
2.43.0


From 8e31a91293bdf74208a5fbbe6a01fbfe17ba4ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:07 +0000
Subject: [PATCH 34/41] fix: a selector only saves a track it has as selected

---
 src/avb/trackgroups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 06ab092..b955701 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1008,6 +1008,10 @@ class Selector(TrackGroup):
     def write(self, f):
         super(Selector, self).write(f)
         ctx = self.root.octx
+
+        if not 0 <= self.selected < len(self.tracks):
+            raise ValueError("selected track %s is not one of the %d tracks" % (self.selected, len(self.tracks)))
+
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
-- 
2.43.0


From 52b408c3f78f1ab51b5fc5ed34ba109b8b71919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:51 +0000
Subject: [PATCH 35/41] fix: adding a reference list to a list gave raw
 references

---
 src/avb/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index 3c5c3f7..5195f4a 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -162,6 +162,11 @@ class AVBRefList(list):
             return list(self) + list(other)
         return NotImplemented
 
+    def __radd__(self, other):
+        if isinstance(other, list):
+            return list(other) + list(self)
+        return NotImplemented
+
     def __mul__(self, n):
         return list(self) * n
 
-- 
2.43.0


From 3f02108c6738797a7c513d6ce0b5456046f7709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:33 +0000
Subject: [PATCH 36/41] fix: comparing attributes compared raw references

---
 src/avb/attributes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index d1b18a9..140ba0a 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -5,6 +5,8 @@ from __future__ import (
     division,
     )
 
+from collections import OrderedDict
+
 from . import utils
 from . import core
 from .core import AVBPropertyDef, AVBPropertyData, AVBRefList
@@ -64,6 +66,16 @@ class Attributes(AVBPropertyData):
         super(Attributes, self).move_to_end(*args, **kwargs)
         self.mark_modified()
 
+    def __eq__(self, other):
+        if isinstance(other, AVBPropertyData):
+            other = OrderedDict(other.items())
+        return OrderedDict(self.items()) == other
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-- 
2.43.0


From 1213485211f8ebae706858635ab238c8a8989d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 37/41] fix: merging attributes with | raised AttributeError

---
 src/avb/attributes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 140ba0a..10f743a 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -76,6 +76,20 @@ class Attributes(AVBPropertyData):
 
     __hash__ = None
 
+    def __or__(self, other):
+        if not isinstance(other, dict):
+            return NotImplemented
+        result = OrderedDict(self.items())
+        result.update(other)
+        return result
+
+    def __ror__(self, other):
+        if not isinstance(other, dict):
+            return NotImplemented
+        result = OrderedDict(other.items())
+        result.update(self.items())
+        return result
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-- 
2.43.0


From 7859d30f0d6b92192df17b93454df616cde15736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:11 +0000
Subject: [PATCH 38/41] fix: cubic curves with coincident key frames divided by
 zero

---
 src/avb/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index e438224..8e21f7d 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -239,6 +239,10 @@ def calculate_tangent(p0, p1, p2, in_tangent=False):
     else:
         tan_x = 0.4 * (nx - x)
 
+    # coincident points have no slope
+    if px == x or nx == x:
+        return (-tan_x if in_tangent else tan_x, 0.0)
+
     slope = (ny - py) / (nx - px)
     prev_slope = (y - py) / (x - px)
     next_slope = (ny - y) / (nx - x)
-- 
2.43.0


From 33580d36c1550eed55c7ea112969a73e9bfa843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 39/41] fix: Bezier curves raised AssertionError where no root
 is found within floating point precision

---
 src/avb/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 8e21f7d..e86fedc 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -177,8 +177,8 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
     if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+        # the root was lost to floating point error, fall back to old method
+        return bezier_interpolate_old(p0, p1, p2, p3, x)
 
     # use the root as t for y
     y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
-- 
2.43.0


From a1eef4fd42367f6a5bb3d443a4d49b41b028538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 40/41] fix: copy.copy of a MobID shared its bytes with the
 original

---
 src/avb/mobid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/mobid.py b/src/avb/mobid.py
index c7d0ec2..8c0d01a 100644
--- a/src/avb/mobid.py
+++ b/src/avb/mobid.py
@@ -362,6 +362,9 @@ class MobID(object):
     def __hash__(self):
         return hash(bytes(self.bytes_le))
 
+    def __copy__(self):
+        return self.__class__(bytes_le=self.bytes_le)
+
     @property
     def urn(self):
         """
-- 
2.43.0


From 0b564f320b99cd80f2235b6a53a1735dff8ff1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:03 +0000
Subject: [PATCH 41/41] fix: saving over the opened file when its name no
 longer leads to it

---
 src/avb/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 3935b4f..ef2f9c7 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -347,7 +347,8 @@ class AVBFile(object):
     def keep_source(self, path):
         # saving over the opened file, unread objects are still needed
         try:
-            if not os.path.samefile(path, self.f.name):
+            # by the open file, its name may mean something else by now
+            if not os.path.samestat(os.stat(path), os.fstat(self.f.fileno())):
                 return
         except (AttributeError, TypeError, ValueError, OSError):
             return
-- 
2.43.0

