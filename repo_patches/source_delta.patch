From 07dcfd03c5ef6a02f5a5be031477b3d50046ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 01/32] fix: convert NaN floats to null with
 --convert-nan-to-null

NaN never compares equal to anything, so NaN values were kept and
json.dump(allow_nan=False) then failed.
---
 palworld_save_tools/archive.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..f586414 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,9 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
-            return None
-        return val
+        return val if math.isfinite(val) else None
 
     unpack_double = struct.Struct("d").unpack
 
@@ -343,9 +341,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
-            return None
-        return val
+        return val if math.isfinite(val) else None
 
     unpack_byte = struct.Struct("B").unpack
 
-- 
2.43.0


From 4917ee5a04a08e698d88fe7c605d970889478fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 02/32] fix: --to-json and --from-json override the file
 extension

--to-json on a .json file (and --from-json on a .sav file) ran both
conversions instead of only the requested one.
---
 palworld_save_tools/commands/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..4f340af 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,7 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or (args.filename.endswith(".sav") and not args.from_json):
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +77,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    elif args.from_json or args.filename.endswith(".json"):
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From 2b439da3058a250c6c0612dfda335e9fd9168a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 03/32] fix: only strip the final .json from the default SAV
 output path

Every .json in the path was removed, including in directory names, and
--from-json on a file without .json in its name defaulted to
overwriting the input.
---
 palworld_save_tools/commands/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 4f340af..2d4a3e7 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -79,7 +79,10 @@ def main():
 
     elif args.from_json or args.filename.endswith(".json"):
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            if args.filename.endswith(".json"):
+                output_path = args.filename[: -len(".json")]
+            else:
+                output_path = args.filename + ".sav"
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From 123e7ed07850b00a845be5a47efa25fdd0cf3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 04/32] fix: fail when the kind of the input file cannot be
 determined

The command silently did nothing and exited with status zero.
---
 palworld_save_tools/commands/convert.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 2d4a3e7..f43274e 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -86,6 +86,11 @@ def main():
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
+    else:
+        print(
+            f"Cannot tell what {args.filename} is, specify either --to-json or --from-json"
+        )
+        exit(1)
 
 
 def convert_sav_to_json(
-- 
2.43.0


From 8781e012855ef8bfc426d4b0b5f8aa87b000f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 05/32] fix: write back work data of unknown types

Work of a type that cannot be parsed is kept as raw bytes when decoding,
but encoding it failed with a KeyError.
---
 palworld_save_tools/rawdata/work.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..b57c82d 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,12 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
-- 
2.43.0


From 39622fc9520858ad1c2883491e1781ddd4b07a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 06/32] fix: write back unknown work transform types

The raw data is a list of integers, which cannot be written as is.
---
 palworld_save_tools/rawdata/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index b57c82d..91cc4d1 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -249,7 +249,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From e665596b603014c5aad09b7f12cd07e9c9a25ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 07/32] fix: keep base camp module data that was not fully
 parsed

Bytes after the known fields, and any data of module types expected to
have none, were dropped with only a warning.
---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..72c952d 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, skipping")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From d985522bd7dfaf86ec45a7c9c45161cd1d1cd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 08/32] fix: refuse truncated identifiers

Reading past the end gave identifiers of fewer than 16 bytes, so cut off
data was accepted, and arrays of identifiers with a corrupted count could
go on for billions of elements.
---
 palworld_save_tools/archive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index f586414..193a70a 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -356,12 +356,15 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            return self.guid()
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From 90e62557b93da18f035862a77fca0023383eea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 09/32] fix: refuse truncated strings

A string cut off by the end of the data was accepted, silently losing its
last character and everything after it.
---
 palworld_save_tools/archive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 193a70a..ea182c7 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read {size * 2} bytes for string")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read {size} bytes for string")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
-- 
2.43.0


From 0e9258ca4e435a8579d2da14c7b09740ccedac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 10/32] fix: write arrays of Guid

The reader supports them, but the writer refused them.
---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index ea182c7..82911c3 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -966,6 +966,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "EnumProperty":
                 self.fstring(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
             elif array_type == "ByteProperty":
-- 
2.43.0


From c6376ac185d5987b66ca783e9d0c97a900ea34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 11/32] fix: round packed vector components to the nearest
 integer

They were truncated towards zero, so values read with a scale factor did
not survive being written again (0.29 with scale 100 became 0.28), and
edited locations were off by up to one unit.
---
 palworld_save_tools/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 82911c3..1bb915e 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -997,7 +997,7 @@ class FArchiveWriter:
 
     @staticmethod
     def unreal_round_float_to_int(value: _float) -> int:
-        return int(value)
+        return round(value)
 
     @staticmethod
     def unreal_get_bits_needed(value: int) -> int:
-- 
2.43.0


From 6915180c33b2b62e30b9a76b5e6b9534cb20912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 12/32] fix: write packed vectors with NaN or null components

Vectors stored as doubles can hold NaN or infinity, shown as null with
--convert-nan-to-null, but writing them back failed.
---
 palworld_save_tools/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 1bb915e..6366eaa 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1018,10 +1018,11 @@ class FArchiveWriter:
         max_value_to_scale = 1 << max_exponent_for_scaling
         max_exponent_after_scaling = 62
         max_scaled_value = 1 << max_exponent_after_scaling
+        x, y, z = [_float("nan") if v is None else v for v in (x, y, z)]
         scaled_x = x * scale_factor
         scaled_y = y * scale_factor
         scaled_z = z * scale_factor
-        if max(abs(scaled_x), abs(scaled_y), abs(scaled_z)) < max_scaled_value:
+        if all(abs(v) < max_scaled_value for v in (scaled_x, scaled_y, scaled_z)):
             use_scaled_value = min(abs(x), abs(y), abs(z)) < max_value_to_scale
             if use_scaled_value:
                 x = self.unreal_round_float_to_int(scaled_x)
-- 
2.43.0


From 6ca05ba6eec42d069890638ee2d7c60081dbe075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 13/32] fix: refuse to write decoded data of unknown kinds

Work, base camp module, map object module and dynamic item data was
silently left out when its type was not one that can be written.
---
 palworld_save_tools/rawdata/base_camp_module.py          | 2 ++
 palworld_save_tools/rawdata/dynamic_item.py              | 2 ++
 palworld_save_tools/rawdata/map_concrete_model_module.py | 2 ++
 palworld_save_tools/rawdata/work.py                      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 72c952d..a69bcae 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -138,6 +138,8 @@ def encode_bytes(p: dict[str, Any], module_type: str) -> bytes:
         )
     elif module_type == "EPalBaseCampModuleType::PassiveEffect":
         writer.tarray(module_passive_effect_writer, p["passive_effects"])
+    else:
+        raise Exception(f"Unknown base camp module type {module_type}")
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index 631e435..27bde3c 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -104,5 +104,7 @@ def encode_bytes(p: dict[str, Any]) -> bytes:
         writer.float(p["durability"])
         writer.i32(p["remaining_bullets"])
         writer.tarray(lambda w, d: (w.fstring(d), None)[1], p["passive_skill_list"])
+    else:
+        raise Exception(f"Unknown dynamic item type {p['type']}")
     encoded_bytes = writer.bytes()
     return encoded_bytes
diff --git a/palworld_save_tools/rawdata/map_concrete_model_module.py b/palworld_save_tools/rawdata/map_concrete_model_module.py
index be0042a..749eee3 100644
--- a/palworld_save_tools/rawdata/map_concrete_model_module.py
+++ b/palworld_save_tools/rawdata/map_concrete_model_module.py
@@ -102,6 +102,8 @@ def encode_bytes(p: dict[str, Any], module_type: str) -> bytes:
         writer.byte(p["lock_state"])
         writer.fstring(p["password"])
         writer.tarray(player_lock_info_writer, p["player_infos"])
+    elif p:
+        raise Exception(f"Cannot write data for module type {module_type}")
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 91cc4d1..03b17bb 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -228,6 +228,8 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         writer.u32(p["fixed"])
         if work_type == "EPalWorkableType::LevelObject":
             writer.guid(p["target_map_object_model_id"])
+    else:
+        raise Exception(f"Unknown work type {work_type}")
 
     # UPalWorkProgressTransformBase->SerializeProperties
     transform_type = p["transform"]["type"]
-- 
2.43.0


From b58545fddeeec2e9b95c9805129b7c7ce684a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 14/32] fix: refuse a trailer that is not valid base64

Characters outside the alphabet were silently discarded, writing a
different trailer.
---
 palworld_save_tools/gvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/gvas.py b/palworld_save_tools/gvas.py
index a72f801..0cf4ddc 100644
--- a/palworld_save_tools/gvas.py
+++ b/palworld_save_tools/gvas.py
@@ -141,7 +141,7 @@ class GvasFile:
         gvas_file = GvasFile()
         gvas_file.header = GvasHeader.load(dict["header"])
         gvas_file.properties = dict["properties"]
-        gvas_file.trailer = base64.b64decode(dict["trailer"])
+        gvas_file.trailer = base64.b64decode(dict["trailer"], validate=True)
         return gvas_file
 
     def dump(self) -> dict[str, Any]:
-- 
2.43.0


From 8d44cd9f01367641cb4c4f155e1c389aad264a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 15/32] fix: refuse properties that occur more than once

Only the last of several properties with the same name (as written for
static arrays) was kept, and the array index of any was lost.
---
 palworld_save_tools/archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 6366eaa..b32b72c 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -388,6 +388,10 @@ class FArchiveReader:
                 break
             type_name = self.fstring()
             size = self.u64()
+            # The upper half is the index into a static array, which the result has
+            # no place for
+            if name in properties or size >> 32:
+                raise Exception(f"Static array property not implemented: {path}.{name}")
             properties[name] = self.property(type_name, size, f"{path}.{name}")
         return properties
 
-- 
2.43.0


From 6c6916cfe0b5dec6c6140ab908968469a61d70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 16/32] fix: do not change the document when writing it

Writing replaced decoded data by raw bytes in the document itself, so
that dumping it afterwards gave a different result or failed.
---
 palworld_save_tools/archive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index b32b72c..d6621e0 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1,3 +1,4 @@
+import copy
 import io
 import math
 import os
@@ -827,8 +828,10 @@ class FArchiveWriter:
     def property_inner(self, property_type: str, property: dict[str, Any]) -> int:
         if "custom_type" in property:
             if property["custom_type"] in self.custom_properties:
+                # Encoders replace the decoded data with raw bytes, do not let them
+                # change the caller's document
                 size = self.custom_properties[property["custom_type"]][1](
-                    self, property_type, property
+                    self, property_type, copy.deepcopy(property)
                 )
             else:
                 raise Exception(
-- 
2.43.0


From ca54c6b98a21855fe083e7def8f75a339fa89f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 17/32] fix: refuse maps with removed keys instead of dropping
 their count

---
 palworld_save_tools/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index d6621e0..55cc6b0 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -464,7 +464,8 @@ class FArchiveReader:
             key_type = self.fstring()
             value_type = self.fstring()
             _id = self.optional_guid()
-            self.u32()
+            if self.u32() != 0:
+                raise Exception(f"Map with removed keys not implemented: {path}")
             count = self.u32()
             key_path = path + ".Key"
             if key_type == "StructProperty":
-- 
2.43.0


From bd057e16a00e12d60edbaef48a646662df33e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 18/32] fix: refuse struct arrays with a property guid instead
 of dropping the flag

---
 palworld_save_tools/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 55cc6b0..201ce63 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -556,7 +556,8 @@ class FArchiveReader:
             self.u64()
             type_name = self.fstring()
             _id = self.guid()
-            self.skip(1)
+            if self.byte() != 0:
+                raise Exception(f"Array with property guid not implemented: {path}")
             prop_values = []
             for _ in range(count):
                 prop_values.append(self.struct_value(type_name, f"{path}.{prop_name}"))
-- 
2.43.0


From cfc1d41c50dca8cb0b30e9879187ffe922027d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 19/32] fix: refuse negative guild player counts instead of
 reading no players

---
 palworld_save_tools/rawdata/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/group.py b/palworld_save_tools/rawdata/group.py
index 9995479..b169015 100644
--- a/palworld_save_tools/rawdata/group.py
+++ b/palworld_save_tools/rawdata/group.py
@@ -62,7 +62,7 @@ def decode_bytes(
             "admin_player_uid": reader.guid(),
             "players": [],
         }
-        player_count = reader.i32()
+        player_count = reader.u32()
         for _ in range(player_count):
             player = {
                 "player_uid": reader.guid(),
-- 
2.43.0


From 72ce47afd3074a56255c59e1b0d09f466d04b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 20/32] fix: refuse truncated packed vectors

---
 palworld_save_tools/archive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 201ce63..794b18e 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -606,7 +606,10 @@ class FArchiveReader:
         return (pitch, yaw, roll)
 
     def serializeint(self, component_bit_count: int) -> int:
-        b = bytearray(self.read((component_bit_count + 7) // 8))
+        size = (component_bit_count + 7) // 8
+        b = bytearray(self.read(size))
+        if len(b) != size:
+            raise Exception(f"could not read {size} bytes for integer")
         if (component_bit_count % 8) != 0:
             b[-1] &= (1 << (component_bit_count % 8)) - 1
         value = int.from_bytes(b, "little")
-- 
2.43.0


From 84b9de0b8011b372cd2a46b94d96afc1a087aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 21/32] fix: refuse byte lists of the wrong length and unknown
 passive effects when writing

---
 palworld_save_tools/archive.py                  | 5 +++++
 palworld_save_tools/rawdata/base_camp_module.py | 6 ++++--
 palworld_save_tools/rawdata/character.py        | 2 +-
 palworld_save_tools/rawdata/dynamic_item.py     | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 794b18e..fa05eed 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -792,6 +792,11 @@ class FArchiveWriter:
     def byte(self, b: int):
         self.data.write(bytes([b]))
 
+    def byte_list(self, values: Sequence[int], size: int):
+        if len(values) != size:
+            raise Exception(f"expected {size} bytes, got {len(values)}")
+        self.data.write(bytes(values))
+
     def u(self, b: int):
         self.data.write(struct.pack("B", b))
 
diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index a69bcae..07536e4 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -54,7 +54,7 @@ def module_passive_effect_reader(reader: FArchiveReader) -> dict[str, Any]:
         raise Exception(f"Unknown passive effect type {data['type']}")
     elif data["type"] == 2:
         data["work_hard_type"] = reader.byte()
-        data["unknown_trailer"] = [b for b in reader.read(4)]
+        data["unknown_trailer"] = [b for b in reader.byte_list(4)]
     return data
 
 
@@ -121,10 +121,12 @@ def transport_item_character_info_writer(
 
 
 def module_passive_effect_writer(writer: FArchiveWriter, p: dict[str, Any]) -> None:
+    if p["type"] not in PASSIVE_EFFECT_ENUM:
+        raise Exception(f"Unknown passive effect type {p['type']}")
     writer.byte(p["type"])
     if p["type"] == 2:
         writer.byte(p["work_hard_type"])
-        writer.write(bytes(p["unknown_trailer"]))
+        writer.byte_list(p["unknown_trailer"], 4)
 
 
 def encode_bytes(p: dict[str, Any], module_type: str) -> bytes:
diff --git a/palworld_save_tools/rawdata/character.py b/palworld_save_tools/rawdata/character.py
index 23566c7..ff3b459 100644
--- a/palworld_save_tools/rawdata/character.py
+++ b/palworld_save_tools/rawdata/character.py
@@ -42,7 +42,7 @@ def encode(
 def encode_bytes(p: dict[str, Any]) -> bytes:
     writer = FArchiveWriter()
     writer.properties(p["object"])
-    writer.write(bytes(p["unknown_bytes"]))
+    writer.byte_list(p["unknown_bytes"], 4)
     writer.guid(p["group_id"])
     encoded_bytes = writer.bytes()
     return encoded_bytes
diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index 27bde3c..d2851e7 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -96,7 +96,7 @@ def encode_bytes(p: dict[str, Any]) -> bytes:
     elif p["type"] == "egg":
         writer.fstring(p["character_id"])
         writer.properties(p["object"])
-        writer.write(bytes(p["unknown_bytes"]))
+        writer.byte_list(p["unknown_bytes"], 4)
         writer.guid(p["unknown_id"])
     elif p["type"] == "armor":
         writer.float(p["durability"])
-- 
2.43.0


From 4a9c87af8bddc1c7dfbd58c798e4e26cf84010c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 22/32] fix: refuse numbers too large for a 32-bit float
 instead of writing infinity

---
 palworld_save_tools/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index fa05eed..e1142e7 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -782,7 +782,8 @@ class FArchiveWriter:
     def float(self, i: Optional[float]):
         if i is None:
             i = float("nan")
-        self.data.write(struct.pack("f", i))
+        # Unlike native mode, standard mode refuses numbers too large for a float
+        self.data.write(struct.pack("<f", i))
 
     def double(self, i: Optional[_float]):
         if i is None:
-- 
2.43.0


From 8b1b7a54c053919e6f295715dea4c69d70d5570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:16 +0000
Subject: [PATCH 23/32] fix: do not fail when a message cannot be shown in the
 output's encoding

---
 palworld_save_tools/commands/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index f43274e..22741e6 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -3,6 +3,7 @@
 import argparse
 import json
 import os
+import sys
 
 from palworld_save_tools.gvas import GvasFile
 from palworld_save_tools.json_tools import CustomEncoder
@@ -11,6 +12,9 @@ from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TY
 
 
 def main():
+    # Messages name files and properties that the output encoding may not cover
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
     parser = argparse.ArgumentParser(
         prog="palworld-save-tools",
         description="Converts Palworld save files to and from JSON",
-- 
2.43.0


From f703852944a37a4eb1aadb00b3123213c4de1e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 24/32] fix: refuse properties named None, which end the
 properties when read

---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index e1142e7..6dc49d0 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -820,6 +820,8 @@ class FArchiveWriter:
 
     def properties(self, properties: dict[str, Any]):
         for key in properties:
+            if key == "None":
+                raise Exception("Property cannot be named None, it ends the properties")
             self.fstring(key)
             self.property(properties[key])
         self.fstring("None")
-- 
2.43.0


From 2e19f4ad656a1790c4b872dea9951d3e39369695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 25/32] fix: refuse malformed identifiers that int() tolerates

---
 palworld_save_tools/archive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 6dc49d0..65f79a1 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -673,7 +673,11 @@ class FArchiveReader:
 
 def uuid_writer(writer, s: Union[str, uuid.UUID, UUID]):
     if isinstance(s, str):
-        s = uuid.UUID(s)
+        text = s
+        s = uuid.UUID(text)
+        # Parsing tolerates blanks, signs and underscores in place of digits
+        if s.hex not in text.replace("-", "").lower():
+            raise Exception(f"invalid identifier: {text!r}")
     if isinstance(s, uuid.UUID):
         b = s.bytes
         ub = bytes(
-- 
2.43.0


From 220af3e8a5b3293ccdd6bc001bc70373db810e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:16 +0000
Subject: [PATCH 26/32] fix: refuse numbers too large for any float in JSON
 input

---
 palworld_save_tools/commands/convert.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 22741e6..51a35ce 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -2,6 +2,7 @@
 
 import argparse
 import json
+import math
 import os
 import sys
 
@@ -143,7 +144,7 @@ def convert_json_to_sav(filename, output_path, force=False):
                 exit(1)
     print(f"Loading JSON from {filename}")
     with open(filename, "r", encoding="utf8") as f:
-        data = json.load(f)
+        data = json.load(f, parse_float=parse_float)
     gvas_file = GvasFile.load(data)
     print(f"Compressing SAV file")
     if (
@@ -161,6 +162,14 @@ def convert_json_to_sav(filename, output_path, force=False):
         f.write(sav_file)
 
 
+def parse_float(text: str) -> float:
+    value = float(text)
+    # Infinity itself is spelled out in JSON, this is a number that is too large
+    if math.isinf(value):
+        raise Exception(f"number too large: {text}")
+    return value
+
+
 def confirm_prompt(question: str) -> bool:
     reply = None
     while reply not in ("y", "n"):
-- 
2.43.0


From c299ebc4e1886a3c6be1b467c2d20ad69ae789d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:39 +0000
Subject: [PATCH 27/32] fix: refuse numbers in place of raw byte lists

---
 palworld_save_tools/rawdata/dynamic_item.py | 2 +-
 palworld_save_tools/rawdata/work.py         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index d2851e7..1862f68 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -92,7 +92,7 @@ def encode_bytes(p: dict[str, Any]) -> bytes:
     writer.guid(p["id"]["local_id_in_created_world"])
     writer.fstring(p["id"]["static_id"])
     if p["type"] == "unknown":
-        writer.write(bytes(p["trailer"]))
+        writer.byte_list(p["trailer"], len(p["trailer"]))
     elif p["type"] == "egg":
         writer.fstring(p["character_id"])
         writer.properties(p["object"])
diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 03b17bb..d0c51db 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -251,7 +251,8 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(bytes(p["transform"]["raw_data"]))
+        raw_data = p["transform"]["raw_data"]
+        writer.byte_list(raw_data, len(raw_data))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From f8f9da2be01db384f86228ae594b7c9a098339cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:26 +0000
Subject: [PATCH 28/32] fix: refuse text in place of lists

---
 palworld_save_tools/archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 65f79a1..f4a508e 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -818,6 +818,8 @@ class FArchiveWriter:
     def tarray(
         self, type_writer: Callable[["FArchiveWriter", Any], None], array: list[Any]
     ):
+        if isinstance(array, str):
+            raise Exception(f"expected a list, got text: {array!r}")
         self.u32(len(array))
         for i in range(len(array)):
             type_writer(self, array[i])
@@ -977,6 +979,8 @@ class FArchiveWriter:
             self.array_value(array_type, count, value["values"])
 
     def array_value(self, array_type: str, count: int, values: list[Any]):
+        if isinstance(values, str):
+            raise Exception(f"expected a list, got text: {values!r}")
         for i in range(count):
             if array_type == "IntProperty":
                 self.i32(values[i])
-- 
2.43.0


From 3b7040d228a625d672e36bb81ea87aea8371cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 29/32] fix: strings without a terminator lost their last
 character

---
 palworld_save_tools/archive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index f4a508e..f999b69 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -281,14 +281,19 @@ class FArchiveReader:
             data = reader.read(size * 2)
             if len(data) != size * 2:
                 raise Exception(f"could not read {size * 2} bytes for string")
+            terminator = data[-2:]
             data = data[:-2]
             encoding = "utf-16-le"
         else:
             data = reader.read(size)
             if len(data) != size:
                 raise Exception(f"could not read {size} bytes for string")
+            terminator = data[-1:]
             data = data[:-1]
             encoding = "ascii"
+        # The last character is not kept, so it must not be anything else
+        if any(terminator):
+            raise Exception(f"string of length {size} is not terminated")
 
         try:
             return data.decode(encoding)
-- 
2.43.0


From 281ab9e55ca0a1df879586a7e953c7f06e831374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 30/32] fix: a decoder naming its own path by an equal string
 recursed without end

---
 palworld_save_tools/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index f999b69..5f4b935 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -406,7 +406,7 @@ class FArchiveReader:
     ) -> dict[str, Any]:
         value = {}
         if path in self.custom_properties and (
-            path is not nested_caller_path or nested_caller_path == ""
+            path != nested_caller_path or nested_caller_path == ""
         ):
             value = self.custom_properties[path][0](self, type_name, size, path)
             value["custom_type"] = path
-- 
2.43.0


From b383e6f2a8e88b76f69e112bdf4162380120db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 31/32] fix: properties with a custom decoder inside decoded
 blocks could not be written back

---
 palworld_save_tools/rawdata/character.py          | 8 +++++---
 palworld_save_tools/rawdata/dynamic_item.py       | 8 +++++---
 palworld_save_tools/rawdata/map_concrete_model.py | 6 ++++--
 palworld_save_tools/rawdata/map_object.py         | 1 +
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/palworld_save_tools/rawdata/character.py b/palworld_save_tools/rawdata/character.py
index ff3b459..82258e9 100644
--- a/palworld_save_tools/rawdata/character.py
+++ b/palworld_save_tools/rawdata/character.py
@@ -34,13 +34,15 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
-    writer = FArchiveWriter()
+def encode_bytes(
+    p: dict[str, Any], parent_writer: FArchiveWriter = FArchiveWriter()
+) -> bytes:
+    writer = parent_writer.copy()
     writer.properties(p["object"])
     writer.byte_list(p["unknown_bytes"], 4)
     writer.guid(p["group_id"])
diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index 1862f68..e495a6c 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -79,15 +79,17 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
+def encode_bytes(
+    p: dict[str, Any], parent_writer: FArchiveWriter = FArchiveWriter()
+) -> bytes:
     if p is None:
         return bytes()
-    writer = FArchiveWriter()
+    writer = parent_writer.copy()
     writer.guid(p["id"]["created_world_id"])
     writer.guid(p["id"]["local_id_in_created_world"])
     writer.fstring(p["id"]["static_id"])
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 74938bb..14f2219 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -444,11 +444,13 @@ def decode_bytes(
     return data
 
 
-def encode_bytes(p: Optional[dict[str, Any]]) -> bytes:
+def encode_bytes(
+    p: Optional[dict[str, Any]], parent_writer: FArchiveWriter = FArchiveWriter()
+) -> bytes:
     if p is None:
         return b""
 
-    writer = FArchiveWriter()
+    writer = parent_writer.copy()
 
     map_object_concrete_model = p["concrete_model_type"]
 
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index 79e548e..aa11186 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -112,6 +112,7 @@ def encode(
             map_object["ConcreteModel"]["value"]["RawData"]["value"] = {
                 "values": map_concrete_model.encode_bytes(
                     map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                    writer,
                 )
             }
         # Encode ConcreteModel.ModuleMap
-- 
2.43.0


From e5f4b32b9f83e73e1f325c02cb0114a820f1bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 32/32] fix: work assignments that share one object in memory
 could not be written

---
 palworld_save_tools/rawdata/work.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index d0c51db..96fce17 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -166,14 +166,15 @@ def encode(
                 ]
             }
         for work_assign in work_element["WorkAssignMap"]["value"]:
-            work_assign["value"]["RawData"]["value"] = {
-                "values": [
-                    b
-                    for b in encode_work_assign_bytes(
-                        work_assign["value"]["RawData"]["value"]
-                    )
-                ]
-            }
+            if "values" not in work_assign["value"]["RawData"]["value"]:
+                work_assign["value"]["RawData"]["value"] = {
+                    "values": [
+                        b
+                        for b in encode_work_assign_bytes(
+                            work_assign["value"]["RawData"]["value"]
+                        )
+                    ]
+                }
     return writer.property_inner(property_type, properties)
 
 
-- 
2.43.0

