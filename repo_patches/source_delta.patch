From 45a88595d92640bab456280d376c39c8816aab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 01/60] fix: decode uint arrays to str without dropping
 trailing null bytes

A string whose last character has a zero low byte (such as U+4E00 or
U+1F600) could not be read back, and string arrays lost their dtype width.
---
 src/hdf5storage/utilities.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..b34e4ce 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -982,31 +982,30 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
+            # Each string is decoded on its own from all of its bytes.
+            # numpy.char.decode can't be used since it drops the
+            # trailing null bytes, which are part of the last character
+            # if that character's low byte is zero. The encoding
+            # (UTF-8/16/32) is gotten from the dtype, and the data is
+            # put into big endian format if it isn't already.
             if data.dtype.name == "uint8":
                 encoding = "UTF-8"
                 swapbytes = False
-                dt = "S" + str(length_to_use)
             else:
                 if data.dtype.name == "uint16":
                     encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
                 else:
                     encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
                 swapbytes = data.dtype.byteorder == "<" or (
                     sys.byteorder == "little" and data.dtype.byteorder == "="
                 )
-            # Copy is needed to prevent errors.
             if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+                data = data.byteswap()
+            words = np.ascontiguousarray(data).reshape((-1, length_to_use))
+            new_data = np.zeros(len(words), dtype="U" + str(length_to_use))
+            for i, word in enumerate(words):
+                new_data[i] = word.tobytes().decode(encoding)
+            return new_data.reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From 64c802ab9ba538306d26fade897a20c6ddd44088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/60] fix: keep a leading U+FEFF when converting numpy.str_
 to str

---
 src/hdf5storage/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b34e4ce..dbc14d3 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -847,7 +847,11 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            # The byte order has to be explicit or else a leading U+FEFF
+            # character would be mistaken for a BOM and dropped.
+            if sys.byteorder == "little":
+                return data.tobytes().decode("UTF-32LE")
+            return data.tobytes().decode("UTF-32BE")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 9f854e5c93c4a8d896e74a0e296ff45bf5bbfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/60] fix: keep the trailing nulls of str, bytes, and
 bytearray

---
 src/hdf5storage/Marshallers.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..fc397fc 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1694,14 +1694,22 @@ class PythonStringMarshaller(NumpyScalarArrayMarshaller):
         # work.
         data = NumpyScalarArrayMarshaller.read(self, f, dsetgrp, attributes)
 
+        # Numpy drops trailing nulls, so they have to be put back. The
+        # full length is given by the underlying type.
+        underlying_type = (
+            convert_attribute_to_string(attributes["Python.numpy.UnderlyingType"]) or ""
+        )
+
         # The type string determines how to convert it back to a Python
         # type (just look up the entry in types). Otherwise, return it
         # as is.
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string == "str":
-            return convert_to_str(data)
-        if type_string == "bytes":
-            return bytes(data)
+            nbits = underlying_type[3:] if underlying_type[:3] == "str" else "0"
+            return convert_to_str(data).ljust(int(nbits or 0) // 32, "\x00")
+        if type_string in ("bytes", "bytearray"):
+            nbits = underlying_type[5:] if underlying_type[:5] == "bytes" else "0"
+            data = bytes(data).ljust(int(nbits or 0) // 8, b"\x00")
         if type_string == "bytearray":
             return bytearray(data)
         return data
-- 
2.43.0


From a2742b3592f24a6aa7741df6c7b1f5c60d432669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 04/60] fix: write 0-d arrays of str when converting to UTF-16

---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index fc397fc..85c6b12 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -780,7 +780,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 or (
                     isinstance(data_to_store, np.ndarray)
                     and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
+                    != np.atleast_1d(data_to_store).shape[-1]
+                    * (data_to_store.dtype.itemsize // 4)
                 )
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
-- 
2.43.0


From f18dd5783260871dab7f384c1cd91ef7d3efafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 05/60] fix: write non-contiguous arrays of bytes when
 converting to UTF-16

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 85c6b12..69e83b1 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -747,7 +747,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.ndarray)
                     .view(np.uint8)
                     .astype(np.uint16)
-- 
2.43.0


From 133f21c8c7a325bf095b9dc5c2b2c40eced89f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 06/60] fix: convert chararray of str to uint32

---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index dbc14d3..f33177a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -776,7 +776,7 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    return np.asarray(data).ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From f2fc9e60ab33b8e7ecfb0044ed346283594faf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 07/60] fix: write string attributes that are not ASCII

Writing a dict or struct inside of a Group with a non-ASCII name when doing
MATLAB compatibility raised UnicodeEncodeError while setting H5PATH.
---
 src/hdf5storage/Marshallers.py | 2 +-
 src/hdf5storage/utilities.py   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 69e83b1..56d3562 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1871,7 +1871,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = convert_to_numpy_bytes(grp2.name)
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f33177a..8846d40 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -491,7 +491,10 @@ class LowLevelFile:
                 data_refs_flat[index] = obj.ref
                 obj_attrs = obj.attrs
                 if self._options.matlab_compatible:
-                    obj_attrs.modify("H5PATH", np.bytes_(self._refs_group_name))
+                    obj_attrs.modify(
+                        "H5PATH",
+                        convert_to_numpy_bytes(self._refs_group_name),
+                    )
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
@@ -1423,7 +1426,7 @@ def set_attributes_all(
             attrs.create(k, [convert_to_str(s) for s in value], dtype=str_arr_dtype)
         else:
             if kind == "string":
-                val = np.bytes_(value)
+                val = convert_to_numpy_bytes(value)
             else:
                 val = value
             if k not in existing:
-- 
2.43.0


From de37182fd2408f96531247c8a3486a27122eb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 08/60] fix: write recarrays with nested structured fields as
 structs

---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 56d3562..8de1ecd 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -734,7 +734,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # recarrays must be converted to structured ndarrays in order
         # for h5py to be able to write them.
         if isinstance(data_to_store, np.core.records.recarray):
-            data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                (np.void, data_to_store.dtype),
+                np.ndarray,
+            )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From efa5191502f5f45ed9b460f769e3ebab5f513777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 09/60] fix: read structs with a field of only empty strings

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8de1ecd..b9ff78d 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1292,6 +1292,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 # If they are all the same, then dt and shape should be
                 # used. Otherwise, it has to be object.
                 if all_same:
+                    # Empty strings need a length of at least one to be
+                    # a field.
+                    if dt.itemsize == 0 and dt.char in "SU":
+                        dt = np.dtype(dt.char + "1")
                     dt_whole.append((k, dt, sp))
                 else:
                     dt_whole.append((k, "object"))
-- 
2.43.0


From 9d8d8f80ea5224cb6a7453f11b532737270a9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 10/60] fix: store dicts with empty or clashing string keys as
 keys and values

An empty key could not be written at all, and of 'a' and b'a' only the value
of the last one was kept.
---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b9ff78d..9295e81 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1827,6 +1827,10 @@ class PythonDictMarshaller(TypeMarshaller):
             except:
                 any_non_valid_str_keys = True
                 break
+        # The keys can't be used as names if one is empty or if more than
+        # one have the same name (such as 'a' and b'a').
+        if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
+            any_non_valid_str_keys = True
 
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
-- 
2.43.0


From 3af4dfe3c556fc7953367b6687e33aba41e95bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/60] fix: escape the names of the keys and values when
 writing dicts

They are escaped when reading.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9295e81..b879b79 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1864,7 +1864,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From 547d6cb5be6248f3ab6e20e2ff5977d239cbc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 12/60] fix: overwrite data compressed with lzf or szip

---
 src/hdf5storage/Marshallers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b879b79..d2cbfe2 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -961,6 +961,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 filters["compression"] = f.options.compression_algorithm
                 if filters["compression"] == "gzip":
                     filters["compression_opts"] = f.options.gzip_compression_level
+                else:
+                    filters["compression_opts"] = None
                 filters["shuffle"] = f.options.shuffle_filter
                 filters["fletcher32"] = f.options.compressed_fletcher32_filter
             else:
-- 
2.43.0


From c7521b913d6072484436d7b69b433b53d45ccd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 13/60] fix: raise OSError when writing to a File opened
 read-only

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From 9d2155409601a3e1a65e4f55d79f5db4ecbec36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 14/60] fix: replace existing attributes whose type or shape
 differ

---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8846d40..05e923f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1441,6 +1441,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From 7d1eb817dc90ca4a14f1304de6fd71c50cbf5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 15/60] fix: store 1d arrays as columns when oned_as is
 'column'

---
 src/hdf5storage/Marshallers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index d2cbfe2..e1b0faa 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -797,8 +797,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+            # Strings expanded into their characters have to stay rows.
+            if (
+                len(data.shape) == 1
+                and data_to_store.shape == data.shape
+                and f.options.oned_as == "column"
+            ):
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 20d86f2e19fb404c11eae1afb75bede82fac4a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 16/60] fix: leave out the references Group wherever it is when
 iterating a File

Only leading occurences were dropped, so it showed up as an item if another
name sorted before it.
---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..e4dc844 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2129,7 +2129,7 @@ class File(collections.abc.MutableMapping):
             it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
+                return itertools.filterfalse(lambda k: k == refgrp, it)
             return it
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
-- 
2.43.0


From 114a2c85322707496394270876671d2bea6c03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 17/60] fix: don't delete the references Group as an unused
 variable

Writing a dict or struct to the root Group with delete_unused_variables set
deleted it, and so lost everything it held.
---
 src/hdf5storage/Marshallers.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e1b0faa..1574ed4 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -63,6 +64,32 @@ else:
     from typing import Callable, Sequence
 
 
+def is_or_holds_refs_group(
+    f: "hdf5storage.utilities.LowLevelFile",
+    grp: h5py.Group,
+    name: str,
+) -> bool:
+    """Check if an object is or holds the Group for references.
+
+    Parameters
+    ----------
+    f : hdf5storage.utilities.LowLevelFile
+        The file.
+    grp : h5py.Group
+        The Group the object is in.
+    name : str
+        The name of the object in `grp`.
+
+    Returns
+    -------
+    flag : bool
+        Whether it is or holds the Group for references.
+
+    """
+    path = posixpath.join(grp.name, name)
+    return (f.options.group_for_references + "/").startswith(path + "/")
+
+
 class TypeMarshaller:
     """Base class for marshallers of Python types.
 
@@ -894,7 +921,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    if not is_or_holds_refs_group(f, dsetgrp, field):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1885,7 +1913,8 @@ class PythonDictMarshaller(TypeMarshaller):
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                if not is_or_holds_refs_group(f, grp2, field):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
-- 
2.43.0


From ace009368ec7c1b87eb1daa0afeef76deb3da4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 18/60] fix: don't let a dict field replace the references
 Group

---
 src/hdf5storage/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 05e923f..69d8d6f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -243,6 +243,8 @@ class LowLevelFile:
         ------
         NotImplementedError
             If writing `data` is not supported.
+        ValueError
+            If it would replace the references Group.
         TypeNotMatlabCompatibleError
             If writing a type not compatible with MATLAB and
             ``self.options.action_for_matlab_incompatible`` is set to
@@ -254,6 +256,14 @@ class LowLevelFile:
         hdf5storage.Options
 
         """
+        # Nothing can be put in the place of the references Group, such
+        # as from a dict written to the root Group.
+        if posixpath.join(grp.name, name) == self._options.group_for_references:
+            raise ValueError(
+                "Cannot write to the Group specified by the "
+                "group_for_references option.",
+            )
+
         # Get the marshaller for type(data). The required modules should
         # be here and imported. A workaround must be when data is a
         # dtype since dtypes are no longer type numpy.dtype in numpy
-- 
2.43.0


From a6ba0c78f203df8a8b8f06a4c85813200b957b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 19/60] fix: don't let the references Group be deleted through
 a File

Deleting it lost everything it held, and everything written later in the same
session. It also no longer is said to be contained, as for iteration and len.
---
 src/hdf5storage/__init__.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index e4dc844..6578799 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2092,6 +2092,8 @@ class File(collections.abc.MutableMapping):
             if self._file is None:
                 raise OSError("File is closed.")
             # Do the check.
+            if self._is_in_refs_group(groupname, targetname):
+                return False
             return posixpath.join(groupname, targetname) in self._file
 
     def __iter__(self: "File") -> Iterator[str]:
@@ -2220,6 +2222,8 @@ class File(collections.abc.MutableMapping):
             If the file is closed or it isn't writable.
         TypeError
             If `path` is an invalid type.
+        ValueError
+            If `path` is in the references Group.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2229,6 +2233,13 @@ class File(collections.abc.MutableMapping):
             raise OSError("File is not writable.")
         # Process the path.
         groupname, targetname = pathesc.process_path(path)
+        # The references Group and what is in it can't be deleted.
+        if self._is_in_refs_group(groupname, targetname):
+            raise ValueError(
+                "Cannot delete paths inside the the "
+                "Group specified by the "
+                "group_for_references option.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
@@ -2236,6 +2247,26 @@ class File(collections.abc.MutableMapping):
                 raise OSError("File is closed.")
             del self._file[posixpath.join(groupname, targetname)]
 
+    def _is_in_refs_group(self: "File", groupname: str, targetname: str) -> bool:
+        """Checks if a path is, or is inside of, the references Group.
+
+        Parameters
+        ----------
+        groupname : str
+            The path of the Group.
+        targetname : str
+            The name of the object in the Group.
+
+        Returns
+        -------
+        flag : bool
+            Whether it is or not.
+
+        """
+        path = posixpath.join("/", groupname, targetname)
+        refs = self._options.group_for_references
+        return posixpath.commonpath((refs, path)) == refs
+
 
 def writes(mdict: Mapping[pathesc.Path, Any], **keywords: Any) -> None:
     """Writes data into an HDF5 file.
-- 
2.43.0


From ee989ac12510c15f02e1bbebe42ebb3ded9d8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 20/60] fix: normalize the path of the references Group

A path such as '/refs/' was kept as is, so the Group was not recognized when
iterating a File or reading Groups.
---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 6578799..3407903 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -727,8 +727,11 @@ class Options:
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
             pth = posixpath.normpath(value)
+            # normpath keeps two leading slashes as they are.
+            if pth.startswith("//"):
+                pth = pth[1:]
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From 9017d0c78a76ff6f3fb78ec316709be40ba1c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 21/60] fix: use the complex_names option when reading complex
 values

Only common names were recognized, and swapped ones were decoded the wrong
way around.
---
 src/hdf5storage/Marshallers.py |  4 ++--
 src/hdf5storage/utilities.py   | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1574ed4..cdb2153 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1414,7 +1414,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a complex type, then it needs to be decoded
             # properly.
             if underlying_type.startswith("complex"):
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If its underlying type is 'bool' but it is something else,
             # then it needs to be converted (means it was written with
@@ -1538,7 +1538,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # could possibly be a complex type which needs to be
             # properly decoded.
             if matlab_class in {"single", "double"}:
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If it is a logical, then it must be converted to
             # numpy.bool8.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 69d8d6f..8c5fcec 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1272,18 +1272,19 @@ def decode_complex(
     imag_fields = ["i", "im", "imag", "imaginary"]
 
     cnames = list(complex_names)
-    for s in fields:
-        if s.lower() in real_fields:
-            cnames[0] = s
-        elif s.lower() in imag_fields:
-            cnames[1] = s
+    if set(cnames) != set(fields):
+        for s in fields:
+            if s.lower() in real_fields:
+                cnames[0] = s
+            elif s.lower() in imag_fields:
+                cnames[1] = s
 
     # If the real and imaginary fields were found, construct the complex
     # form from the fields. This is done by finding the complex type
     # that they cast to, making an array, and then setting the
     # parts. Otherwise, return what we were given because it isn't in
     # the right form.
-    if cnames[0] is not None and cnames[1] is not None:
+    if cnames[0] in fields and cnames[1] in fields:
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
-- 
2.43.0


From e5f63e8694837a34d62f9c4f83b311d5e6c1909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 22/60] fix: encode complex data that isn't in native byte
 order

Its bytes were taken to be in native byte order, which corrupted the
values.
---
 src/hdf5storage/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8c5fcec..07d9898 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1334,8 +1334,9 @@ def encode_complex(
 
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
-    # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    # right dtype (same byte order) in the view function.
+    dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
+    return data.view([(complex_names[0], dtype), (complex_names[1], dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From d268478689e42b3bf83979016993d4811d3ef21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 23/60] fix: convert str that isn't in native byte order to
 uint32

The characters were stored byte swapped and couldn't be read back.
---
 src/hdf5storage/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 07d9898..b4da75f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -789,7 +789,9 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return np.asarray(data).ravel().view(np.uint32).reshape(tuple(shape))
+    # The characters have to be in native byte order.
+    ndata = np.asarray(data, dtype=data.dtype.newbyteorder("="))
+    return ndata.ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From 32e78632ba51d8e47bd66fe255ac782cbf9fb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 24/60] fix: keep the length of str when converting arrays of
 them to UTF-16

If no string used the full length, the result was too short. When
writing, the strings were thus stored as UTF-32, which MATLAB can't use.
---
 src/hdf5storage/utilities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b4da75f..1d3a0e2 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -747,6 +747,11 @@ def convert_numpy_str_to_uint16(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # the number of column increased by the number of words (pair of
     # bytes) in the strings.
     cdata = np.char.encode(np.atleast_1d(data), codec)
+    # The width is set by the longest string, but has to be the full
+    # length of the strings even if none of them are that long.
+    nbytes = data.dtype.itemsize // 2
+    if cdata.dtype.itemsize < nbytes:
+        cdata = cdata.astype(f"S{nbytes}")
     shape = list(cdata.shape)
     shape[-1] *= cdata.dtype.itemsize // 2
     return np.ndarray(shape=shape, dtype="uint16", buffer=cdata)
-- 
2.43.0


From 1612b072d3bc09650acb275a42d66f7447a0ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 25/60] fix: convert_to_str respects byte order and keeps a
 leading U+FEFF

---
 src/hdf5storage/utilities.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 1d3a0e2..18a5862 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -856,22 +856,26 @@ def convert_to_str(
     ):
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
-        if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
-        if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
             return data.tobytes().decode("UTF-8")
+        # The byte order has to be explicit or else a leading U+FEFF
+        # character would be mistaken for a BOM and dropped.
+        if data.dtype.byteorder == ">" or (
+            sys.byteorder == "big" and data.dtype.byteorder == "="
+        ):
+            order = "BE"
+        else:
+            order = "LE"
+        if data.dtype.name == "uint16":
+            return data.tobytes().decode("UTF-16" + order)
+        if data.dtype.name == "uint32":
+            return data.tobytes().decode("UTF-32" + order)
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            # The byte order has to be explicit or else a leading U+FEFF
-            # character would be mistaken for a BOM and dropped.
-            if sys.byteorder == "little":
-                return data.tobytes().decode("UTF-32LE")
-            return data.tobytes().decode("UTF-32BE")
+            return data.tobytes().decode("UTF-32" + order)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 811d4a9a34a955a6716dd136e42731d65fa372c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 26/60] fix: convert arrays of bytes and empty arrays to numpy
 str

---
 src/hdf5storage/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 18a5862..0269e89 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -962,7 +962,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
@@ -998,13 +998,13 @@ def convert_to_numpy_str(
             new_shape: List[int]
             if len(shape) == 1:
                 if length is None:
-                    length_to_use = shape[0]
+                    length_to_use = shape[0] or 1
                 else:
                     length_to_use = length
                 new_shape = [shape[0] // length_to_use]
             else:
                 if length is None:
-                    length_to_use = shape[-1]
+                    length_to_use = shape[-1] or 1
                 else:
                     length_to_use = length
                 new_shape = copy.deepcopy(shape)
-- 
2.43.0


From c30bed884475274f4ccb696a6b3ce66b077a9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 27/60] fix: convert every unsigned integer array to numpy
 bytes without loss

---
 src/hdf5storage/utilities.py | 41 +++++++++++++-----------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 0269e89..9c7b772 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1161,45 +1161,34 @@ def convert_to_numpy_bytes(
             # on the number of dimentions).
             if len(shape) == 1:
                 if length is None:
-                    length2 = shape[0]
-                    new_shape = [shape[0]]
+                    length2 = shape[0] or 1
                 else:
                     length2 = length
-                    new_shape = [shape[0] // length2]
+                new_shape = [shape[0] // length2]
             else:
                 if length is None:
-                    length2 = shape[-1]
+                    length2 = shape[-1] or 1
                 else:
                     length2 = length
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length2
 
-            # If it is uint8, we can just use the object directly as the
-            # buffer for the new data.
+            # Each string is converted on its own from all of its
+            # elements. They are uint8 (already UTF-8), uint16, or uint32.
+            words = np.ascontiguousarray(data).reshape((-1, length2))
             if data.dtype.name == "uint8":
-                return np.ndarray(
-                    shape=new_shape,
-                    dtype="S" + str(length2),
-                    buffer=data,
-                )
+                strs = [word.tobytes() for word in words]
+            else:
+                strs = [convert_to_str(word).encode("UTF-8") for word in words]
 
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
+            # They are padded with nulls to at least the given length, and
+            # more if the UTF-8 encoding of one of them is longer.
             new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
+                shape=(len(strs),),
+                dtype="S" + str(max([length2] + [len(x) for x in strs])),
             )
-
-            # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
-            data = data.ravel()
-            for i in range(0, new_data.shape[0]):
-                chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
+            for i, x in enumerate(strs):
+                new_data[i] = x
 
             # Only thing is left is to reshape it.
             return new_data.reshape(tuple(new_shape))
-- 
2.43.0


From 17259cfc1e0ed0ab7d1289fb00a6310982e26c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 28/60] fix: set MATLAB_int_decode of empty strings and bools
 to the element size

---
 src/hdf5storage/Marshallers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cdb2153..645f484 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1169,6 +1169,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if tp in (np.bytes_, np.str_, np.bool_):
                     if dsetgrp.dtype.type == np.bytes_:
                         attributes["MATLAB_int_decode"] = ("value", 1)
+                    elif dsetgrp.dtype.type == np.uint64:
+                        # It is the shape of something empty, and so
+                        # the size of an element had it not been empty
+                        # is needed.
+                        attributes["MATLAB_int_decode"] = (
+                            "value",
+                            np.int64(1 if tp == np.bool_ else 2),
+                        )
                     else:
                         attributes["MATLAB_int_decode"] = (
                             "value",
-- 
2.43.0


From a0130aae5a2698a1513bd20ea2e7d961adfa4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 29/60] fix: set MATLAB_class of collections.Counter as
 documented

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 645f484..1909f44 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1829,6 +1829,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From 684e32e0df94676c5e873496a1ecb5541dcdb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 30/60] fix: don't store str with characters past U+FFFF as
 UTF-16 doublets

---
 src/hdf5storage/Marshallers.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1909f44..89b45e1 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -791,32 +791,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # convert them to UTF-16, then an attempt at the conversion is
         # made. If no conversion is to be done, the conversion throws an
         # exception (a UTF-32 character had no UTF-16 equivalent), or a
-        # UTF-32 character gets turned into a UTF-16 doublet (the
-        # increase in the number of columns will be by a factor more
-        # than the length of the strings); then it will be simply
-        # converted to uint32's byte for byte instead.
+        # UTF-32 character would get turned into a UTF-16 doublet (it is
+        # past U+FFFF); then it will be simply converted to uint32's
+        # byte for byte instead.
 
         if data.dtype.type == np.unicode_:
-            new_data2 = None
-            if f.options.convert_numpy_str_to_utf16:
+            new_data2 = convert_numpy_str_to_uint32(data_to_store)
+            if f.options.convert_numpy_str_to_utf16 and np.all(new_data2 < 0x10000):
                 with contextlib.suppress(Exception):
                     new_data2 = convert_numpy_str_to_uint16(data_to_store)
-            if (
-                new_data2 is None
-                or (
-                    type(data_to_store) == np.unicode_
-                    and len(data_to_store) != len(new_data2)
-                )
-                or (
-                    isinstance(data_to_store, np.ndarray)
-                    and new_data2.shape[-1]
-                    != np.atleast_1d(data_to_store).shape[-1]
-                    * (data_to_store.dtype.itemsize // 4)
-                )
-            ):
-                data_to_store = convert_numpy_str_to_uint32(data_to_store)
-            else:
-                data_to_store = new_data2
+            data_to_store = new_data2
 
         # Convert scalars to arrays if that option is set. For 1d
         # arrays, an option determines whether they become row or column
-- 
2.43.0


From 93dd704fda04cdb11618bb5c6c8628cf445b426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 31/60] fix: remove the earlier value of discarded dict items
 and struct fields

---
 src/hdf5storage/Marshallers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 89b45e1..b8d32a2 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -957,6 +957,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         esc_attrs,
                         np.prod(new_data4.shape) != 1,
                     )
+                elif esc_field in dsetgrp and not is_or_holds_refs_group(
+                    f,
+                    dsetgrp,
+                    esc_field,
+                ):
+                    # It was discarded, so what was there before has to
+                    # go.
+                    del dsetgrp[esc_field]
         else:
             wrote_as_struct = False
 
@@ -1924,6 +1932,9 @@ class PythonDictMarshaller(TypeMarshaller):
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+            elif k in grp2 and not is_or_holds_refs_group(f, grp2, k):
+                # It was discarded, so what was there before has to go.
+                del grp2[k]
         # Done
         return grp2
 
-- 
2.43.0


From 29a61ee9a68afd88298f6c8fa4346f58c9643179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 32/60] fix: read Groups without fields and structs with
 discarded fields

---
 src/hdf5storage/Marshallers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b8d32a2..cb2212a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1292,6 +1292,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     fields = [
                         unescape_path(k.tobytes().decode()) for k in matlab_fields
                     ]
+                # Fields that were discarded when writing aren't there.
+                fields = [k for k in fields if escape_path(k) in dset]
                 # Now, there may be fields available that were not
                 # given, but still should be read. Keys that are not in
                 # python_fields need to be added to the list.
@@ -1301,9 +1303,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 fields = sorted(struct_data)
 
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
+            shape_whole: Tuple[int, ...] = (1,)
             for k in fields:
                 # Read the value.
                 v = struct_data[k]
+                shape_whole = v.shape
 
                 # If any of the elements are not Numpy types or if they
                 # don't all have the exact same dtype and shape, then
@@ -1337,8 +1341,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             # Make the structured ndarray with the constructed
             # dtype. The shape is simply the shape of the object arrays
-            # of its fields, so we might as well use the shape of
-            # v. Then, all the elements of every field need to be
+            # of its fields (a single element if it has no fields), so we
+            # might as well use the shape of the last one. Then, all the
+            # elements of every field need to be
             # assigned. Now, if dtype's itemsize is 0, a TypeError will
             # be thrown by numpy due to a bug in numpy. np.zeros (as
             # well as ones and empty) does not like to make arrays with
@@ -1348,9 +1353,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # at least no errors will happen.
             dtwhole = np.dtype(dt_whole)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=shape_whole, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=shape_whole, dtype=dtwhole)
 
             for k, v in struct_data.items():
                 # There is no sense iterating through the elements if
-- 
2.43.0


From 886a098eb3e18d5d04b2a9ddb5c3004ce5cb6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 33/60] fix: write int with the documented type string

---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cb2212a..5ce7666 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1623,7 +1623,8 @@ class PythonScalarMarshaller(NumpyScalarArrayMarshaller):
         # both to int, which can be done by just putting the type int
         # for its entry in types.
         self.types = (bool, int, int, float, complex)
-        self.python_type_strings = ("bool", "int", "long", "float", "complex")
+        # "int" has to be after "long" since it is the one to write.
+        self.python_type_strings = ("bool", "long", "int", "float", "complex")
         # As the parent class already has MATLAB strings handled, there
         # are no MATLAB classes that this marshaller should be used for.
         self.matlab_classes = ()
-- 
2.43.0


From 3113ed970f8dac21a2946449d2f9cc4f06e1b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 34/60] fix: don't replace unreadable parts of fractions and
 datetime objects by defaults

---
 src/hdf5storage/Marshallers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 5ce7666..cae71a4 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2315,6 +2315,14 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            # A field that was written but couldn't be read must not be
+            # replaced by its default value.
+            fields = convert_attribute_to_string_array(attributes["Python.Fields"])
+            for k in fields or ():
+                if k not in data:
+                    raise hdf5storage.exceptions.CantReadError(
+                        "Could not read " + posixpath.join(dsetgrp.name, k),
+                    )
             return tp(**data)  # type: ignore[operator]
         # Must be some other type, so return it as is.
         return data
@@ -2369,7 +2377,10 @@ class PythonFractionMarshaller(PythonDictMarshaller):
         # work, and then pass the result through the contructor of
         # Fraction.
         data = PythonDictMarshaller.read(self, f, dsetgrp, attributes)
-        return importlib.import_module("fractions").Fraction(**data)
+        return importlib.import_module("fractions").Fraction(
+            data["numerator"],
+            data["denominator"],
+        )
 
     def read_approximate(
         self: "PythonFractionMarshaller",
-- 
2.43.0


From 9c97a5300f463057cfbbb674413e6aac6b8b4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 35/60] fix: overwrite the MATLAB_fields Attribute

---
 src/hdf5storage/utilities.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 9c7b772..d6f49b6 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1441,11 +1441,9 @@ def set_attributes_all(
                 val = convert_to_numpy_bytes(value)
             else:
                 val = value
-            if k not in existing:
+            if k not in existing or k == "MATLAB_fields":
+                # The latter is an array of arrays, which can't be modified.
                 attrs.create(k, val)
-            elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
             else:
                 try:
                     if (
-- 
2.43.0


From 08a5fe6d2870133dcb4235305daf753d0fe97420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 36/60] fix: unescape_path unescaped the backslashes made by
 unescaping \x5c again

---
 src/hdf5storage/pathesc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..b7ef331 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -139,6 +139,9 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     if count % 2 == 0:
         return s
     c = chr(int(s[(count + 1) :], base=16))
+    if c == slsh:
+        # It must be kept when the double backslashes are unescaped.
+        c += slsh
     return slsh * (count - 1) + c
 
 
-- 
2.43.0


From 64a2d426bf43aed1c263ada6cf44f441213b613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 37/60] fix: process_path raised TypeError for pure paths
 without parts

---
 src/hdf5storage/pathesc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index b7ef331..f0a8dd7 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -292,9 +292,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
-- 
2.43.0


From 803a4cda69459aa2996f841cfde5f2161529a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 38/60] fix: unescape_path raised OverflowError for large code
 points

---
 src/hdf5storage/pathesc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index f0a8dd7..d7565ae 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -138,7 +138,10 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     count = s.count(slsh)
     if count % 2 == 0:
         return s
-    c = chr(int(s[(count + 1) :], base=16))
+    value = int(s[(count + 1) :], base=16)
+    if value > sys.maxunicode:
+        raise ValueError("Invalid escape found.")
+    c = chr(value)
     if c == slsh:
         # It must be kept when the double backslashes are unescaped.
         c += slsh
-- 
2.43.0


From 744c73000b8da2593d17150afce63daf9d87c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 39/60] fix: write raised TypeError for lists of path
 components

---
 src/hdf5storage/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3407903..594c8f8 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1842,6 +1842,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Lists of path components are not hashable.
+        if isinstance(path, collections.abc.MutableSequence):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2204,6 +2207,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Lists of path components are not hashable.
+        if isinstance(path, collections.abc.MutableSequence):
+            path = tuple(path)
         self.writes({path: data})
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
-- 
2.43.0


From 84c6c97512cb510be6c0113f23183e690aaa0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 40/60] fix: nested references Group could be deleted with its
 parent and made its siblings unusable

---
 src/hdf5storage/Marshallers.py |  8 +++++++
 src/hdf5storage/__init__.py    | 44 ++++++++++------------------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cae71a4..148a2fe 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1006,6 +1006,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             else:
                 filters["chunks"] = None
 
+            # A Group that holds the Group for references can't be
+            # replaced.
+            if is_or_holds_refs_group(f, grp, name):
+                raise ValueError(
+                    "Cannot replace a Group holding the Group specified by the "
+                    "group_for_references option.",
+                )
+
             # The data must first be written. If name is not present
             # yet, then it must be created. If it is present, but not a
             # Dataset, has the wrong dtype, is the wrong shape, doesn't
diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 594c8f8..accbc29 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1898,19 +1898,7 @@ class File(collections.abc.MutableMapping):
         towrite = []
         for p, v in mdict.items():
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._is_in_refs_group(groupname, targetname):
                 raise ValueError(
                     "Cannot write to paths inside the the "
                     "Group specified by the "
@@ -2004,19 +1992,7 @@ class File(collections.abc.MutableMapping):
         toread = []
         for p in paths:
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._is_in_refs_group(groupname, targetname):
                 raise ValueError(
                     "Cannot read from paths inside the the "
                     "Group specified by the "
@@ -2232,7 +2208,7 @@ class File(collections.abc.MutableMapping):
         TypeError
             If `path` is an invalid type.
         ValueError
-            If `path` is in the references Group.
+            If `path` is in the references Group or holds it.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2242,12 +2218,16 @@ class File(collections.abc.MutableMapping):
             raise OSError("File is not writable.")
         # Process the path.
         groupname, targetname = pathesc.process_path(path)
-        # The references Group and what is in it can't be deleted.
-        if self._is_in_refs_group(groupname, targetname):
+        # The references Group, what is in it, and the Groups holding it
+        # can't be deleted.
+        path = posixpath.join("/", groupname, targetname)
+        refs = self._options.group_for_references
+        common = posixpath.commonpath((refs, path))
+        if common == refs or "/" != common == posixpath.commonpath((path,)):
             raise ValueError(
-                "Cannot delete paths inside the the "
-                "Group specified by the "
-                "group_for_references option.",
+                "Cannot delete the Group specified by the "
+                "group_for_references option, what is in it, or a Group "
+                "holding it.",
             )
         # File operations must be synchronized.
         with self._lock:
-- 
2.43.0


From a32d78e06c5721cb987ef0d3e6000a2e6c310b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 41/60] fix: read Groups of object array fields of different
 shapes

Without Python metadata, a Group whose fields are all arrays of
references was always taken for a multi-element structured array, so
that fields of different shapes raised an IndexError or were padded.
---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 148a2fe..4caa657 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1278,6 +1278,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             if matlab_class == "struct" and f.options.structs_as_dicts:
                 return struct_data
 
+            # The elements of a multi-element structured ndarray can only
+            # be put together if all fields have the same shape.
+            # Otherwise, the fields are the values themselves.
+            if is_multi_element and len({v.shape for v in struct_data.values()}) > 1:
+                is_multi_element = False
+
             # If it isn't multi element, we need to pack all the values
             # in struct_array inside of numpy.object_'s so that the code
             # after this that depends on this will work.
-- 
2.43.0


From 061ca01f356d9a91a75acc6746a20d68ec6ca3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 42/60] fix: keep the order of struct fields whose stored names
 are escaped differently

The fields listed in MATLAB_fields were looked for under the escaping
this package would have chosen, and so were put last if the file spells
them with other escapes.
---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 4caa657..9d6c44c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1307,7 +1307,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         unescape_path(k.tobytes().decode()) for k in matlab_fields
                     ]
                 # Fields that were discarded when writing aren't there.
-                fields = [k for k in fields if escape_path(k) in dset]
+                present = {unescape_path(k) for k in dset}
+                fields = [k for k in fields if k in present]
                 # Now, there may be fields available that were not
                 # given, but still should be read. Keys that are not in
                 # python_fields need to be added to the list.
-- 
2.43.0


From a1aa190195dfaba03e0788f56d9708b047ce90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 43/60] fix: add_marshaller adds none of the marshallers if one
 is invalid

The ones before the invalid one were kept but not put into the lookups,
so that they took effect only upon the next change of the collection.
---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index accbc29..5c6d510 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1342,12 +1342,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # Check all of them before adding any of them.
+        marshallers = tuple(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From 4c1ab33bfbe235492276a1aac22ae878ffdc8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 44/60] fix: take the names in File.__iter__ while holding the
 lock

---
 src/hdf5storage/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 5c6d510..18613dd 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2111,9 +2111,10 @@ class File(collections.abc.MutableMapping):
                 raise OSError("File is closed.")
             # We will use the output of the __iter__ method of the file,
             # but if the Group for references is in the root Group, we
-            # will need to filter it out.
+            # will need to filter it out. The names have to be gotten
+            # now, while we have the lock.
             refgrp = self._options.group_for_references
-            it = self._file.__iter__()
+            it = iter(tuple(self._file))
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
                 return itertools.filterfalse(lambda k: k == refgrp, it)
-- 
2.43.0


From 92be1d8bbfcb81f14f4f3c9c4a4199714a4eeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 45/60] fix: wait for required modules that another thread is
 still importing

---
 src/hdf5storage/__init__.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 18613dd..4a47fa6 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1233,20 +1233,17 @@ class MarshallerCollection:
                 continue
 
             # Check if all modules are loaded or not, and load them if
-            # not doing lazy loading.
-            try:
-                for name in m.required_modules:
-                    if name not in sys.modules:
-                        raise ImportError("module not loaded yet.")
-            except ImportError:
-                if self._lazy_loading:
-                    self._imported_required_modules[i] = False
-                else:
-                    success = self._import_marshaller_modules(m)
-                    self._has_required_modules[i] = success
-                    self._imported_required_modules[i] = success
+            # not doing lazy loading. If they are all loaded, another
+            # thread could still be importing them, so it needs to be
+            # waited for.
+            if self._lazy_loading and not all(
+                name in sys.modules for name in m.required_modules
+            ):
+                self._imported_required_modules[i] = False
             else:
-                self._imported_required_modules[i] = True
+                success = self._import_marshaller_modules(m)
+                self._has_required_modules[i] = success
+                self._imported_required_modules[i] = success
 
         # Construct the dictionary to look up the appropriate marshaller
         # by type, the equivalent one to read data types given type
@@ -1300,9 +1297,10 @@ class MarshallerCollection:
 
         """
         try:
+            # Modules in sys.modules could still be being imported by
+            # another thread, which import_module waits for.
             for name in m.required_modules:
-                if name not in sys.modules:
-                    importlib.import_module(name)
+                importlib.import_module(name)
         except ImportError:
             return False
         return True
-- 
2.43.0


From 32d5d75b84749495bd59e31a98fa2db426952af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 46/60] fix: raise CantReadError when a part of a slice, range,
 or Fraction can't be read

---
 src/hdf5storage/Marshallers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9d6c44c..16d4d19 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2230,6 +2230,11 @@ class PythonSliceRangeMarshaller(PythonDictMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            for k in ("start", "stop", "step"):
+                if k not in data:
+                    raise hdf5storage.exceptions.CantReadError(
+                        "Could not read " + posixpath.join(dsetgrp.name, k),
+                    )
             return tp(
                 data["start"],
                 data["stop"],
@@ -2392,6 +2397,11 @@ class PythonFractionMarshaller(PythonDictMarshaller):
         # work, and then pass the result through the contructor of
         # Fraction.
         data = PythonDictMarshaller.read(self, f, dsetgrp, attributes)
+        for k in ("numerator", "denominator"):
+            if k not in data:
+                raise hdf5storage.exceptions.CantReadError(
+                    "Could not read " + posixpath.join(dsetgrp.name, k),
+                )
         return importlib.import_module("fractions").Fraction(
             data["numerator"],
             data["denominator"],
-- 
2.43.0


From 7788771f9a20a73030df0431b075e905a73214d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 47/60] fix: names of fields given by Attributes could be paths
 to other objects when reading dict

---
 src/hdf5storage/Marshallers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 16d4d19..aa154f3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2100,7 +2100,8 @@ class PythonDictMarshaller(TypeMarshaller):
                 for s in [k.tobytes().decode() for k in matlab_fields]:
                     if s not in fields:
                         fields.append(s)
-            for k in grp2:
+            names = dict.fromkeys(grp2)
+            for k in names:
                 if k not in fields:
                     fields.append(k)
 
@@ -2122,6 +2123,10 @@ class PythonDictMarshaller(TypeMarshaller):
             }
             items = []
             for i, k in enumerate(fields):
+                # Only what is in the Group can be read. The fields given
+                # by the Attributes could otherwise be paths to anything.
+                if k not in names:
+                    continue
                 with contextlib.suppress(Exception):
                     uk = unescape_path(k)
                     # We must exclude group_for_references
-- 
2.43.0


From 483fa70c5290cc2038218a0e97302bcccc8b2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 48/60] fix: return what is not complex as is from
 decode_complex and decode scalars

Fields with the names of a real and an imaginary part that hold no
numbers, or different numbers of them, made it raise a TypeError or
ValueError, and Numpy scalars an AttributeError.
---
 src/hdf5storage/utilities.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index d6f49b6..2d09d4e 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1287,9 +1287,20 @@ def decode_complex(
     if cnames[0] in fields and cnames[1] in fields:
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
+        # They have to be real numbers and as many of each, or else it
+        # isn't complex.
+        if (
+            real.dtype.kind not in "biuf"
+            or imag.dtype.kind not in "biuf"
+            or real.shape != imag.shape
+        ):
+            return data
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
-        cdata = real.astype(cdtype)
+        # Scalars are read-only, so the parts are set in an array.
+        cdata = np.array(real, dtype=cdtype)
         cdata.imag = imag
+        if not isinstance(data, np.ndarray):
+            return cdata[()]
         return cdata
     return data
 
-- 
2.43.0


From cf758c33b50cffc968e1c761b9ce65ecfdad91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 49/60] fix: raise the documented TypeError in
 does_dtype_have_a_zero_shape

---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 2d09d4e..5409cbb 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -87,6 +87,8 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
         If `dt` is not a ``numpy.dtype``.
 
     """
+    if not isinstance(dt, np.dtype):
+        raise TypeError("dt must be a numpy.dtype.")
     components = [dt]
     while len(components) != 0:
         c = components.pop()
-- 
2.43.0


From 747683c8927bd0020992a57b16415937c1131744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 50/60] fix: keep the type and shape of empty arrays in
 convert_to_numpy_str

An empty array of numpy.bytes_ gave an array of float64, of other shape
if it has more than one zero in its shape or dimensions after it.
---
 src/hdf5storage/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 5409cbb..46d3802 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -964,6 +964,9 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
+            if data.size == 0:
+                # numpy.char.decode loses the type and shape.
+                return np.zeros(data.shape, dtype="U" + str(data.dtype.itemsize))
             return np.char.decode(data, "UTF-8")
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
-- 
2.43.0


From a03bdd1c21fa07dba9a928b3c23797799ffe305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 51/60] fix: keep the layout of aligned structures inside of
 others in convert_dtype_to_str

str leaves out that they are aligned, and numpy.dtype applies the
alignment of the outer structure to the inner ones, so that another
dtype came out or none at all.
---
 src/hdf5storage/utilities.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 46d3802..e9a1567 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -697,9 +697,39 @@ def convert_dtype_to_str(dtype: np.dtype) -> str:
     out = str(dtype)
     if out[0] not in "([{":
         return "'" + out + "'"
+    # str leaves out the alignment of structures inside of others and
+    # numpy.dtype applies the alignment of the outer one to them, so the
+    # layout has to be given explicitly if any of them is aligned.
+    components = [dtype]
+    while len(components) != 0:
+        c = components.pop()
+        if c.base is not c:
+            components.append(c.base)
+        if c.fields is not None:
+            if c is not dtype and (c.isalignedstruct or dtype.isalignedstruct):
+                return str(_make_layout_explicit(dtype))
+            components.extend([v[0] for v in c.fields.values()])
     return out
 
 
+def _make_layout_explicit(dtype: np.dtype) -> np.dtype:
+    """Make the same dtype with offsets and sizes instead of alignment."""
+    if dtype.subdtype is not None:
+        return np.dtype((_make_layout_explicit(dtype.subdtype[0]), dtype.shape))
+    if dtype.names is None:
+        return dtype
+    fields = [dtype.fields[name] for name in dtype.names]
+    return np.dtype(
+        {
+            "names": list(dtype.names),
+            "formats": [_make_layout_explicit(x[0]) for x in fields],
+            "offsets": [x[1] for x in fields],
+            "titles": [x[2] if len(x) > 2 else None for x in fields],
+            "itemsize": dtype.itemsize,
+        }
+    )
+
+
 def convert_numpy_str_to_uint16(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     r"""Converts a ``numpy.unicode_`` to UTF-16 in numpy.uint16 form.
 
-- 
2.43.0


From abe190f6cdd06940edfa1e2a6f2912da1a3ee2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 52/60] fix: escape nulls in paths

HDF5 ends names at the first null, so that paths with nulls led to other
objects, for example to the Group for references, which must not be
reachable. Options.group_for_references with nulls is ignored, like other
invalid values.
---
 src/hdf5storage/__init__.py | 2 +-
 src/hdf5storage/pathesc.py  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 4a47fa6..2e315d0 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -730,7 +730,7 @@ class Options:
             # normpath keeps two leading slashes as they are.
             if pth.startswith("//"):
                 pth = pth[1:]
-            if len(pth) > 1 and posixpath.isabs(pth):
+            if len(pth) > 1 and posixpath.isabs(pth) and "\x00" not in pth:
                 self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index d7565ae..b2bce88 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -321,6 +321,10 @@ def process_path(pth: Path) -> Tuple[str, str]:
             "those three.",
         )
 
+    # HDF5 would stop at the first null, and so nulls must be escaped no
+    # matter what.
+    p = p.replace("\x00", "\\x00")
+
     # Remove double slashes and a non-root trailing slash.
     path = posixpath.normpath(p)
 
-- 
2.43.0


From ad4e5bfc8711b83eeb00e6682ee5053b698438f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 53/60] fix: loadmat only leaves out missing variables and
 reports unreadable ones

Any error when reading one of the given variable_names was suppressed, as
if the variable was missing, and otherwise what couldn't be read was
taken for not being a version 7.3 file. The documented CantReadError could
never come out.
---
 src/hdf5storage/__init__.py | 71 +++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 2e315d0..549f9e5 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2697,43 +2697,27 @@ def loadmat(
     reads : Function used to do the actual reading.
 
     """
-    # Will first assume that it is the HDF5 based 7.3 format. If an
-    # OSError occurs, then it wasn't an HDF5 file and the scipy function
-    # can be tried instead.
-    try:
-        # Make the options with the given marshallers if we weren't
-        # given it.
-        if options is None:
-            options = Options(marshaller_collection=marshaller_collection)
-
-        # Append .mat if it isn't on the end of the file name and we are
-        # supposed to.
-        if appendmat:
-            if isinstance(file_name, str) and not file_name.endswith(".mat"):
-                filename = file_name + ".mat"
-            elif isinstance(file_name, bytes) and not file_name.endswith(b".mat"):
-                filename = file_name + b".mat"
-            else:
-                filename = file_name
+    # Make the options with the given marshallers if we weren't given it.
+    if options is None:
+        options = Options(marshaller_collection=marshaller_collection)
+
+    # Append .mat if it isn't on the end of the file name and we are
+    # supposed to.
+    if appendmat:
+        if isinstance(file_name, str) and not file_name.endswith(".mat"):
+            filename = file_name + ".mat"
+        elif isinstance(file_name, bytes) and not file_name.endswith(b".mat"):
+            filename = file_name + b".mat"
         else:
             filename = file_name
+    else:
+        filename = file_name
 
-        # Read everything if we were instructed.
-        with File(filename, writable=False, options=options) as f:
-            data: Dict[Any, Any]
-            if variable_names is None:
-                data = {pathesc.unescape_path(k): v for k, v in f.items()}
-            else:
-                data = {}
-                for k in variable_names:
-                    with contextlib.suppress(Exception):
-                        data[k] = f.read(k)
-        # Read all the variables, stuff them into mdict, and return it.
-        if mdict is None:
-            mdict = data
-        for k, v in data.items():
-            mdict[k] = v
-        return mdict
+    # Will first assume that it is the HDF5 based 7.3 format. If an
+    # OSError occurs when opening it, then it wasn't an HDF5 file and the
+    # scipy function can be tried instead.
+    try:
+        f = File(filename, writable=False, options=options)
     except OSError:
         return importlib.import_module("scipy.io").loadmat(
             file_name,
@@ -2743,6 +2727,25 @@ def loadmat(
             **keywords,
         )
 
+    # Read everything if we were instructed. Only missing variables are
+    # skipped.
+    with f:
+        data: Dict[Any, Any]
+        if variable_names is None:
+            data = {pathesc.unescape_path(k): v for k, v in f.items()}
+        else:
+            data = {}
+            for k in variable_names:
+                with contextlib.suppress(KeyError):
+                    data[k] = f.read(k)
+
+    # Stuff all the variables into mdict, and return it.
+    if mdict is None:
+        mdict = data
+    for k, v in data.items():
+        mdict[k] = v
+    return mdict
+
 
 def get_default_marshaller_collection() -> MarshallerCollection:
     """Gets the default MarshallerCollection.
-- 
2.43.0


From a1c6c8b4591d857bd3c8a3aea30dd01de08faf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 54/60] fix: convert_attribute_to_string_array gives None for
 what is no string array

It is documented to do so, but raised a TypeError.
---
 src/hdf5storage/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e9a1567..4300726 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1440,7 +1440,10 @@ def convert_attribute_to_string_array(value: Any) -> Optional[List[str]]:
     """
     if value is None:
         return value
-    return [convert_to_str(x) for x in value]
+    try:
+        return [convert_to_str(x) for x in value]
+    except TypeError:
+        return None
 
 
 def set_attributes_all(
-- 
2.43.0


From 331e99404e6a5a7112e2099b4c7e21b9fdc85059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 55/60] fix: object arrays behind external links were read from
 the wrong file

The references in a file that is reached through an external link are
references into that file, but they were looked up in the file that was
opened, which raised or gave unrelated objects.
---
 src/hdf5storage/Marshallers.py | 5 +++--
 src/hdf5storage/utilities.py   | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index aa154f3..df290e5 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1232,9 +1232,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a reference type, then we need to make an object
             # array that is its replicate, but with the objects they are
             # pointing to in their elements instead of just the
-            # references.
+            # references. They are references into the file the Dataset
+            # is in, which is another one behind an external link.
             if h5py.check_dtype(ref=dset.dtype) is not None:
-                data = f.read_object_array(data)
+                data = f.read_object_array(data, dset.file)
         else:
             # Starting with an empty dict, all that has to be done is
             # iterate through all the Datasets and Groups in dset
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 4300726..04f213a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -518,6 +518,7 @@ class LowLevelFile:
     def read_object_array(
         self: "LowLevelFile",
         data: Union[np.ndarray, h5py.Reference],
+        file: Optional[h5py.File] = None,
     ) -> Union[np.ndarray, np.object_]:
         r"""Reads an array of objects recursively.
 
@@ -530,6 +531,9 @@ class LowLevelFile:
         data : numpy.ndarray of h5py.Reference
             The array of HDF5 References to read and make an object
             array from.
+        file : h5py.File, optional
+            The file that holds the references, if it is not the file
+            that is wrapped (the array is behind an external link).
 
         Raises
         ------
@@ -551,11 +555,13 @@ class LowLevelFile:
         """
         # Go through all the elements of data and read them using their
         # references, and the putting the output in new object array.
+        if file is None:
+            file = self._f
         data_derefed = np.zeros(shape=data.shape, dtype="object")
         data_derefed_flat = data_derefed.reshape(-1)
         data_flat = data[...].ravel()
         for index, x in enumerate(data_flat):
-            data_derefed_flat[index] = self.read_data(None, None, dsetgrp=self._f[x])
+            data_derefed_flat[index] = self.read_data(None, None, dsetgrp=file[x])
         return data_derefed
 
     def next_unused_ref_group_name(self: "LowLevelFile") -> str:
-- 
2.43.0


From c87e5595d02f6ce902c4a0b3dce440e8021ff6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 56/60] fix: write_metadata of the marshallers changed the
 Attributes given to it

---
 src/hdf5storage/Marshallers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index df290e5..906bbe8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -474,8 +474,8 @@ class TypeMarshaller:
         utilities.set_attributes_all
 
         """
-        if attributes is None:
-            attributes = {}
+        # What is given is left as it is.
+        attributes = {} if attributes is None else dict(attributes)
         # Make sure we have a complete type_string.
         if f.options.store_python_metadata and "Python.Type" not in attributes:
             attributes["Python.Type"] = (
@@ -1062,8 +1062,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # matlab struct or not. If yes, then the field names must be put
         # in the metadata.
 
-        if attributes is None:
-            attributes = {}
+        # What is given is left as it is.
+        attributes = {} if attributes is None else dict(attributes)
         # Write the underlying numpy type if we are storing python
         # information.
 
@@ -1971,8 +1971,8 @@ class PythonDictMarshaller(TypeMarshaller):
         keys_as_str: Sequence[str] = (),
         key_str_types: bytes = b"",
     ) -> None:
-        if attributes is None:
-            attributes = {}
+        # What is given is left as it is.
+        attributes = {} if attributes is None else dict(attributes)
         # Two keyword arguments were added beyond what the base class
         # requires. These are used to pass whether there were any keys
         # that were valid string types and if they were all valid string
-- 
2.43.0


From 6b3e1513ad78c761a9f0febe1b92e99d7c0f6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 57/60] fix: text with lone surrogates was written but could
 not be read

str and numpy str_ with lone surrogates were written (in UTF-32) without
error, but reading them raised UnicodeDecodeError; and dicts with such
keys could not be written. Read them back, and store the dicts as keys and
values.
---
 src/hdf5storage/Marshallers.py |  2 ++
 src/hdf5storage/utilities.py   | 11 +++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 906bbe8..b88fe33 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1880,6 +1880,8 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                # Names are UTF-8, which cannot have lone surrogates.
+                field_str.encode("UTF-8")
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 04f213a..644b14e 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -909,11 +909,11 @@ def convert_to_str(
         if data.dtype.name == "uint16":
             return data.tobytes().decode("UTF-16" + order)
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32" + order)
+            return data.tobytes().decode("UTF-32" + order, "surrogatepass")
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32" + order)
+            return data.tobytes().decode("UTF-32" + order, "surrogatepass")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
@@ -1056,7 +1056,9 @@ def convert_to_numpy_str(
             # trailing null bytes, which are part of the last character
             # if that character's low byte is zero. The encoding
             # (UTF-8/16/32) is gotten from the dtype, and the data is
-            # put into big endian format if it isn't already.
+            # put into big endian format if it isn't already. Lone
+            # surrogates, which str can have, are only stored in UTF-32.
+            errors = "strict"
             if data.dtype.name == "uint8":
                 encoding = "UTF-8"
                 swapbytes = False
@@ -1065,6 +1067,7 @@ def convert_to_numpy_str(
                     encoding = "UTF-16BE"
                 else:
                     encoding = "UTF-32BE"
+                    errors = "surrogatepass"
                 swapbytes = data.dtype.byteorder == "<" or (
                     sys.byteorder == "little" and data.dtype.byteorder == "="
                 )
@@ -1073,7 +1076,7 @@ def convert_to_numpy_str(
             words = np.ascontiguousarray(data).reshape((-1, length_to_use))
             new_data = np.zeros(len(words), dtype="U" + str(length_to_use))
             for i, word in enumerate(words):
-                new_data[i] = word.tobytes().decode(encoding)
+                new_data[i] = word.tobytes().decode(encoding, errors)
             return new_data.reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
-- 
2.43.0


From 62e50adce2ed3845fa5ab067b459d7966820746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 58/60] fix: empty structured arrays lost the dtypes of their
 fields

Those stored as a Dataset of their dtype were read with fields of dtype
object instead.
---
 src/hdf5storage/Marshallers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b88fe33..4219d73 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1426,7 +1426,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
                 elif struct_dtype is not None:
-                    data = np.zeros(tuple(shape), dtype=struct_dtype)
+                    # If it wasn't stored as a Group and its shape wasn't
+                    # stored in its place, the Dataset has the dtype.
+                    if data.dtype.names == tuple(fields):
+                        data = np.zeros(tuple(shape), dtype=data.dtype)
+                    else:
+                        data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
                 if matlab_class is not None or f.options.reverse_dimension_order:
-- 
2.43.0


From 3de3f720c049b581fab303a0ba05f6d3cf8e67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:57 +0000
Subject: [PATCH 59/60] fix: Datasets of another HDF5 type with the same dtype
 were overwritten in place

References, variable length strings, variable length arrays and region
references all have the object dtype, and enumerations have that of their
base type, so writing over such a Dataset of another writer failed or kept
its type.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 4219d73..0f9afea 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1030,6 +1030,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or dsetgrp.shuffle != filters["shuffle"]
                     or dsetgrp.fletcher32 != filters["fletcher32"]
                     or dsetgrp.compression_opts != filters["compression_opts"]
+                    or not dsetgrp.id.get_type().equal(
+                        h5py.h5t.py_create(data_to_store.dtype, logical=True),
+                    )
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0


From 37b0ea0a3fe30a41b55adf648c5fc0efd383e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:35 +0000
Subject: [PATCH 60/60] fix: values were stored lossily in Datasets with the
 scale-offset filter

Such Datasets, and virtual ones and ones with external storage, whose data
is that of others, are replaced rather than overwritten in place.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 0f9afea..ffb2f59 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1033,6 +1033,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or not dsetgrp.id.get_type().equal(
                         h5py.h5t.py_create(data_to_store.dtype, logical=True),
                     )
+                    or dsetgrp.scaleoffset is not None
+                    or dsetgrp.is_virtual
+                    or dsetgrp.external is not None
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0

