From 8fc42ab49b3773861880f2183e28b6b109b2b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/35] fix: replace an existing Attribute whose dtype or shape
 changed

set_attributes_all only modified an Attribute already present when the
dtype and shape were the same and otherwise left the old value in place,
so overwriting an object kept stale type and shape metadata.
---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..f2b78e6 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1435,6 +1435,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From cafedc680031330fa8be3f9b364039df9b6fc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 02/35] fix: make File opened read-only raise OSError on writes
 and deletes

The writable argument was not stored, so the documented OSError was never
raised.
---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From bf9fb132b2f71f9425588979e5bff851d828e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 03/35] fix: leave the references Group out of File iteration
 wherever it sorts

dropwhile only dropped it when it came first.
---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..e4dc844 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2129,7 +2129,7 @@ class File(collections.abc.MutableMapping):
             it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
+                return itertools.filterfalse(lambda k: k == refgrp, it)
             return it
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
-- 
2.43.0


From c842003f2fe7b2a760105a8facba2636fdaa85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 04/35] fix: honour oned_as='column' when making 1d arrays 2d

The transposed array was assigned to a variable that was never used.
---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..1635c11 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -794,7 +794,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
             if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From ada769f0f2d75e9100cec40df5a02a361dc0e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 05/35] fix: keep hex/unicode escaped backslashes when
 unescaping paths

Two adjacent ones, or one next to a double backslash, were decoded a
second time and merged into a single backslash.
---
 src/hdf5storage/pathesc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..6c33f32 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -139,6 +139,10 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     if count % 2 == 0:
         return s
     c = chr(int(s[(count + 1) :], base=16))
+    # The double backslash escapes are decoded afterwards, so a decoded
+    # backslash must be doubled to survive it.
+    if c == slsh:
+        c = slsh * 2
     return slsh * (count - 1) + c
 
 
-- 
2.43.0


From a64fe5f8fa6fe4879c14bd04cb8e9c240686d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 06/35] fix: accept PurePath paths without any parts

PurePath('.') made posixpath.join raise a TypeError for its missing
argument instead of being treated like '.'.
---
 src/hdf5storage/pathesc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 6c33f32..b42cc4e 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -293,9 +293,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
-- 
2.43.0


From 5e34b55fe31ff8f5d3c359beb7b0daabe5201e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 07/35] fix: normalize the group_for_references option

Equivalent spellings such as a trailing slash were stored as is, and then
the Group was not excluded from the length, iteration and dicts.
---
 src/hdf5storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index e4dc844..49ed650 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -726,9 +726,9 @@ class Options:
         # set it. If it is something other than "/#refs#", then we are
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
-            pth = posixpath.normpath(value)
+            pth = posixpath.normpath(value).replace("//", "/")
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From f3ead2d867b1e0a4a02fff6ef7961d2a48ce997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 08/35] fix: decode strings whose last code unit ends with a
 null byte

numpy bytes_ arrays drop trailing nulls, so characters such as U+E000 or
U+10000 at the end of a string could not be decoded. The string length in
the dtype also shrank to the longest string instead of the given length.
---
 src/hdf5storage/utilities.py | 40 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f2b78e6..cb3d854 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -982,31 +982,27 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
+            # uint32's are already UTF-32, so they only need to be viewed
+            # as strings. The others are decoded string by string, as
+            # numpy bytes_ arrays drop trailing nulls, which are part of
+            # the code units of some characters. The copies are needed
+            # to have contiguous data in native byte order.
+            cdata = np.array(data, dtype=data.dtype.newbyteorder("="), order="C")
+            if data.dtype.name == "uint32":
+                return cdata.view("U" + str(length_to_use))
             if data.dtype.name == "uint8":
                 encoding = "UTF-8"
-                swapbytes = False
-                dt = "S" + str(length_to_use)
+            elif sys.byteorder == "little":
+                encoding = "UTF-16LE"
             else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
-                )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+                encoding = "UTF-16BE"
+            strs = np.zeros(
+                shape=(int(np.prod(new_shape)),),
+                dtype="U" + str(length_to_use),
+            )
+            for i, chunk in enumerate(cdata.reshape(-1, length_to_use)):
+                strs[i] = chunk.tobytes().decode(encoding)
+            return strs.reshape(tuple(new_shape))
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From c5ceb8f97fa61d5e7af33d8a8b6426e6f9be539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/35] fix: decode arrays of bytes_ as UTF-8 in
 convert_to_numpy_str

They were encoded instead, which gives an array of bytes.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index cb3d854..b02bbba 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -934,7 +934,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")  # type: ignore[arg-type]
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
-- 
2.43.0


From c8f6d2c9b2581125811972b532545336d888ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 10/35] fix: keep a leading U+FEFF and lone surrogates in
 convert_to_str

The former was dropped as a byte order mark and the latter raised an
exception though str can hold them.
---
 src/hdf5storage/utilities.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b02bbba..7dcd0dc 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -834,12 +834,18 @@ def convert_to_str(
         data,
         (np.ndarray, np.uint8, np.uint16, np.uint32, np.bytes_, np.unicode_),
     ):
+        # The byte order has to be given explicitly, as otherwise a
+        # leading U+FEFF would be taken as a byte order mark.
+        big_endian = data.dtype.byteorder == ">" or (
+            sys.byteorder == "big" and data.dtype.byteorder == "="
+        )
+        endian = "BE" if big_endian else "LE"
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.tobytes().decode("UTF-16" + endian)
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32" + endian, "surrogatepass")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -847,7 +853,7 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32" + endian, "surrogatepass")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 686477b4e999ac54ab49bd68d6512e459d57295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 11/35] fix: convert chararrays of str to uint32

Viewing a chararray as uint32 raises a ValueError.
---
 src/hdf5storage/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 7dcd0dc..0eaf554 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -774,9 +774,13 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # characters. Then it is a mstter of getting a view of the
     # string (in flattened form so that it is contiguous) as uint32
     # and then reshaping it.
+    #
+    # chararrays can't be viewed as anything but strings, so it needs to
+    # be made a regular array first (in native byte order).
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    cdata = np.asarray(data, dtype=data.dtype.newbyteorder("="))
+    return cdata.ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From 530ee6bf2156f66f9669cd9b346e4f0f235aaf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 12/35] fix: write 0d arrays of str when converting to UTF-16

They don't have a last dimension, so an IndexError was raised.
---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1635c11..0614556 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -780,7 +780,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 or (
                     isinstance(data_to_store, np.ndarray)
                     and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
+                    != np.atleast_1d(data_to_store).shape[-1]
+                    * (data_to_store.dtype.itemsize // 4)
                 )
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
-- 
2.43.0


From 339e5eda6a55388a68db65d37b435341adb1d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 13/35] fix: write non-contiguous arrays of bytes when
 converting to UTF-16

Viewing them as uint8 raises a ValueError.
---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 0614556..6b1ea77 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -747,7 +747,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.ndarray)
                     .view(np.uint8)
                     .astype(np.uint16)
-- 
2.43.0


From a70a28d4204f3d9e0cc714b355a9a97f569a2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 14/35] fix: store dicts with empty or clashing keys as keys
 and values

An empty key can't be the name of a Dataset, and keys such as 'a' and b'a'
have the same name, in which case the value of one replaced the other's.
---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6b1ea77..5b312e1 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1807,6 +1807,10 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                # HDF5 names can't be empty and have to be unique.
+                if field_str == "" or field_str in keys_as_str:
+                    any_non_valid_str_keys = True
+                    break
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
-- 
2.43.0


From 90335ffb1c6aab86ff09945e24d14aac831f1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 15/35] fix: encode string Attributes as UTF-8

Passing a str to numpy.bytes_ encodes it as ASCII, so dicts and structures
inside of Groups with other characters in their name couldn't be written
when doing MATLAB compatibility.
---
 src/hdf5storage/Marshallers.py | 2 +-
 src/hdf5storage/utilities.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 5b312e1..7f24eeb 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1867,7 +1867,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = convert_to_numpy_bytes(grp2.name)
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 0eaf554..2fdc7c9 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1426,7 +1426,7 @@ def set_attributes_all(
             attrs.create(k, [convert_to_str(s) for s in value], dtype=str_arr_dtype)
         else:
             if kind == "string":
-                val = np.bytes_(value)
+                val = convert_to_numpy_bytes(value)
             else:
                 val = value
             if k not in existing:
-- 
2.43.0


From 50682ee3840cc6a79e427386017d8a1d964d9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 16/35] fix: write recarrays with structured fields as
 structures

The view kept numpy.record as the type of the elements, so getting such a
field out of them gave a numpy.record, which can't be written.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7f24eeb..bc50d77 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -734,7 +734,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # recarrays must be converted to structured ndarrays in order
         # for h5py to be able to write them.
         if isinstance(data_to_store, np.core.records.recarray):
-            data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                np.dtype((np.void, data_to_store.dtype)),
+                np.ndarray,
+            )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From ee3f7d2b51c065aea88c2890112b01208b0fa40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 17/35] fix: escape dict_like_keys_name and
 dict_like_values_name when writing

They are escaped when reading, so names that need escaping could not be
found again.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index bc50d77..7f8888f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1852,7 +1852,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From 1ce41e745c710d4dab24baad09943f87c82d5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 18/35] fix: keep trailing nulls of str, bytes and bytearray

They were written but dropped when reading.
---
 src/hdf5storage/Marshallers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7f8888f..6550861 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1701,13 +1701,23 @@ class PythonStringMarshaller(NumpyScalarArrayMarshaller):
         # The type string determines how to convert it back to a Python
         # type (just look up the entry in types). Otherwise, return it
         # as is.
+        #
+        # Numpy drops trailing nulls when getting a string out of an
+        # array, so they have to be put back using the stored length
+        # (the number at the end of the underlying type, in bits).
         type_string = convert_attribute_to_string(attributes["Python.Type"])
+        underlying_type = convert_attribute_to_string(
+            attributes["Python.numpy.UnderlyingType"],
+        )
+        bits = 0
+        if underlying_type is not None and underlying_type[-1:].isdigit():
+            bits = int(underlying_type.lstrip("bytesr"))
         if type_string == "str":
-            return convert_to_str(data)
+            return convert_to_str(data).ljust(bits // 32, "\x00")
         if type_string == "bytes":
-            return bytes(data)
+            return bytes(data).ljust(bits // 8, b"\x00")
         if type_string == "bytearray":
-            return bytearray(data)
+            return bytearray(bytes(data).ljust(bits // 8, b"\x00"))
         return data
 
 
-- 
2.43.0


From 261d543b40295ad3ecb82c7b74e335e3d1b10084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 19/35] fix: keep the characters of converted strings along the
 last axis with oned_as=column

---
 src/hdf5storage/Marshallers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6550861..6a9df8c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -797,7 +797,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
+            # Strings that were converted to their characters have the
+            # characters along the last axis and must stay that way.
+            if (
+                len(data_to_store.shape) == 1
+                and f.options.oned_as == "column"
+                and (data_to_store.dtype.type == data.dtype.type)
+            ):
                 new_data3 = new_data3.T
             data_to_store = new_data3
 
-- 
2.43.0


From e29e6623f0f1e1bbcbc3a441d062d432d611b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 20/35] fix: convert 1d uint arrays without a length to a
 single bytes_

---
 src/hdf5storage/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 2fdc7c9..abae829 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1141,10 +1141,9 @@ def convert_to_numpy_bytes(
             if len(shape) == 1:
                 if length is None:
                     length2 = shape[0]
-                    new_shape = [shape[0]]
                 else:
                     length2 = length
-                    new_shape = [shape[0] // length2]
+                new_shape = [shape[0] // max(length2, 1)]
             else:
                 if length is None:
                     length2 = shape[-1]
-- 
2.43.0


From 54c525194a4101e7e584834350faf413a82ca514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 21/35] fix: convert non-contiguous arrays of uint8 to bytes_

---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index abae829..12cf278 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1158,7 +1158,7 @@ def convert_to_numpy_bytes(
                 return np.ndarray(
                     shape=new_shape,
                     dtype="S" + str(length2),
-                    buffer=data,
+                    buffer=np.ascontiguousarray(data),
                 )
 
             # The new array can be made as all zeros (nulls) with enough
-- 
2.43.0


From a38508048b2023b8db7897be2e44fb60f237f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 22/35] fix: keep all the bytes when encoding uint arrays to
 bytes_

---
 src/hdf5storage/utilities.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 12cf278..fd87d79 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1161,23 +1161,22 @@ def convert_to_numpy_bytes(
                     buffer=np.ascontiguousarray(data),
                 )
 
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
-            new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
-            )
-
             # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
+            # length sized chunks and encode them. It starts out as a 1d
+            # array and is reshaped into the proper shape later. The
+            # strings have length characters or as many as are needed to
+            # hold everything if that is more.
             data = data.ravel()
-            for i in range(0, new_data.shape[0]):
-                chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
+            strs = [
+                convert_to_str(data[(i * length2) : ((i + 1) * length2)]).encode(
+                    "UTF-8"
+                )
+                for i in range(int(np.prod(new_shape)))
+            ]
+            new_data = np.array(
+                strs,
+                dtype="S" + str(max([length2] + [len(x) for x in strs])),
+            )
 
             # Only thing is left is to reshape it.
             return new_data.reshape(tuple(new_shape))
-- 
2.43.0


From 050a764cae1f16017c144212a2b76745d3573d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 23/35] fix: write to separated paths given as a list

---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 49ed650..474d89a 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1839,6 +1839,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Separated paths need not be hashable, which the keys have to be.
+        if isinstance(path, list):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2199,7 +2202,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.write(data, path)
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
         """Deletes one path from the file.
-- 
2.43.0


From f94280a7089394f6ff7f33b24a6aa548a77a8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 24/35] fix: add no marshaller if any of those given is invalid

---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 474d89a..d4bf165 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1339,12 +1339,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # All of them are checked before any is added.
+        marshallers = list(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From 0b042f74493e71030e82cd9a1a17ff70c491efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 25/35] fix: resolve PurePosixPath with two leading slashes
 from the root

---
 src/hdf5storage/pathesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index b42cc4e..f233ebc 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -293,7 +293,7 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join("", *parts[1:])
+            p = posixpath.join("/", *parts[1:])
         else:
             p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
-- 
2.43.0


From 32dd5cfeea93a101204154c25c2cdf1d25ece6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 26/35] fix: overwrite lzf compressed Datasets in place

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6a9df8c..e71bf72 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1000,7 +1000,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or dsetgrp.compression != filters["compression"]
                     or dsetgrp.shuffle != filters["shuffle"]
                     or dsetgrp.fletcher32 != filters["fletcher32"]
-                    or dsetgrp.compression_opts != filters["compression_opts"]
+                    or dsetgrp.compression_opts != filters.get("compression_opts")
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0


From d1f61ac0fe6e33d812f10293f8e9dc5424af134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 27/35] fix: keep the byte order of complex data when encoding
 and decoding

---
 src/hdf5storage/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index fd87d79..e808f6b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1275,6 +1275,8 @@ def decode_complex(
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
+        if not (real.dtype.isnative or imag.dtype.isnative):
+            cdtype = cdtype.newbyteorder()
         cdata = real.astype(cdtype)
         cdata.imag = imag
         return cdata
@@ -1322,7 +1324,8 @@ def encode_complex(
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
     # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
+    return data.view([(complex_names[0], dtype), (complex_names[1], dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From 16201002787296685809a0e57e0cf774ab29c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 28/35] fix: decode structured scalars and only pairs of real
 numbers as complex

---
 src/hdf5storage/utilities.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e808f6b..adef64b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1274,11 +1274,20 @@ def decode_complex(
     if cnames[0] is not None and cnames[1] is not None:
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
+        # The parts have to be real numbers of the same shape.
+        if (
+            real.dtype.kind not in "biuf"
+            or imag.dtype.kind not in "biuf"
+            or real.shape != imag.shape
+        ):
+            return data
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
         if not (real.dtype.isnative or imag.dtype.isnative):
             cdtype = cdtype.newbyteorder()
-        cdata = real.astype(cdtype)
+        cdata = np.array(real, dtype=cdtype, subok=True)
         cdata.imag = imag
+        if isinstance(data, np.generic):
+            return cdata[()]
         return cdata
     return data
 
-- 
2.43.0


From 7c9949e3547929ea3d68225379483971e208cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 29/35] fix: decode only data having both complex field names

---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index adef64b..3d6a0d8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1271,7 +1271,7 @@ def decode_complex(
     # that they cast to, making an array, and then setting the
     # parts. Otherwise, return what we were given because it isn't in
     # the right form.
-    if cnames[0] is not None and cnames[1] is not None:
+    if set(cnames) == set(fields):
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         # The parts have to be real numbers of the same shape.
-- 
2.43.0


From 3971da2b728504dd4af6f863041222f2aafd3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 30/35] fix: set MATLAB_fields over an existing one

---
 src/hdf5storage/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 3d6a0d8..644698a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1439,11 +1439,8 @@ def set_attributes_all(
                 val = convert_to_numpy_bytes(value)
             else:
                 val = value
-            if k not in existing:
+            if k not in existing or k == "MATLAB_fields":
                 attrs.create(k, val)
-            elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
             else:
                 try:
                     if (
-- 
2.43.0


From bb78ede4913987b529eefe626b8eed2dacd854c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 31/35] fix: iterate over the names a File has when the
 iteration starts

---
 src/hdf5storage/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index d4bf165..cf63162 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2132,7 +2132,8 @@ class File(collections.abc.MutableMapping):
             # but if the Group for references is in the root Group, we
             # will need to filter it out.
             refgrp = self._options.group_for_references
-            it = self._file.__iter__()
+            # The names have to be obtained while holding the lock.
+            it = iter(list(self._file))
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
                 return itertools.filterfalse(lambda k: k == refgrp, it)
-- 
2.43.0


From 4f7a24c029d3d7e3d42c3844b270d075b9d2bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 32/35] fix: refuse paths with nulls that HDF5 would cut off,
 naming another path

---
 src/hdf5storage/__init__.py | 2 +-
 src/hdf5storage/pathesc.py  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index cf63162..74abc59 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2090,7 +2090,7 @@ class File(collections.abc.MutableMapping):
         """
         try:
             groupname, targetname = pathesc.process_path(path)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
         # File operations must be synchronized.
         with self._lock:
diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index f233ebc..389e8d6 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -279,6 +279,8 @@ def process_path(pth: Path) -> Tuple[str, str]:
     ------
     TypeError
         If `pth` is not of the right type.
+    ValueError
+        If `pth` has a null that isn't escaped.
 
     See Also
     --------
@@ -319,6 +321,11 @@ def process_path(pth: Path) -> Tuple[str, str]:
             "those three.",
         )
 
+    # HDF5 would cut the path off at the first null, and thus use another
+    # path than the one given.
+    if "\x00" in p:
+        raise ValueError("Nulls in paths must be escaped.")
+
     # Remove double slashes and a non-root trailing slash.
     path = posixpath.normpath(p)
 
-- 
2.43.0


From 3585063d3823f467f0ce1fa08583c35e9476628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 33/35] fix: write to separated paths given as any sequence
 that is not hashable

---
 src/hdf5storage/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 74abc59..21add25 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1843,7 +1843,9 @@ class File(collections.abc.MutableMapping):
 
         """
         # Separated paths need not be hashable, which the keys have to be.
-        if isinstance(path, list):
+        if isinstance(
+            path, collections.abc.Sequence
+        ) and not isinstance(path, collections.abc.Hashable):
             path = tuple(path)
         self.writes({path: data})
 
-- 
2.43.0


From be00100e97df35ea69e3258fae81b25512037528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 34/35] fix: refuse to store keys and values of a dict under
 the same name

---
 src/hdf5storage/Marshallers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e71bf72..196f9af 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1836,6 +1836,17 @@ class PythonDictMarshaller(TypeMarshaller):
                 any_non_valid_str_keys = True
                 break
 
+        # The keys and the values can only be stored separately if the
+        # names to store them under are different and usable.
+        if any_non_valid_str_keys and (
+            f.options.dict_like_keys_name == f.options.dict_like_values_name
+            or "" in (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+        ):
+            raise ValueError(
+                "The dict_like_keys_name and dict_like_values_name options "
+                "must be different and not empty.",
+            )
+
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
         # before being created.
-- 
2.43.0


From 4ea7c27d48bcb6339b79473400fcd9818c8861b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 35/35] fix: keep the trailing nulls of str_ and bytes_ scalars
 when reading

Taking an element of an array of text drops its trailing nulls, so
np.str_('a\x00') read back as np.str_('a').
---
 src/hdf5storage/Marshallers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 196f9af..c4b709b 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1441,12 +1441,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     if python_empty == 1:
                         data = np.bytes_(b"")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        # Trailing nulls are lost when taking an element
+                        # and need to be put back.
+                        length = int(underlying_type[5:]) // 8
+                        data = np.bytes_(data.flat[0].ljust(length, b"\x00"))
                 elif underlying_type.startswith("str"):
                     if python_empty == 1:
                         data = np.unicode_("")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        length = int(underlying_type[3:]) // 32
+                        data = np.unicode_(data.flat[0].ljust(length, "\x00"))
                 else:
                     data = data.flat[0]
             elif container == "ndarray" or (
-- 
2.43.0

