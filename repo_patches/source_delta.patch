From 05b8807daa828841f2705eb58f184580bd28d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/48] fix: make File refuse writes and deletions when opened
 read-only

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From dba645678b8eaa05045a18bb4cae07e0aa34dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/48] fix: always hide the references Group when iterating
 over a File

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..e4dc844 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2129,7 +2129,7 @@ class File(collections.abc.MutableMapping):
             it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
+                return itertools.filterfalse(lambda k: k == refgrp, it)
             return it
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
-- 
2.43.0


From 0ce8bd1f2dbcdc5b2093430a3e3f5296ab83e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/48] fix: replace stale HDF5 Attributes when overwriting an
 object in place

---
 src/hdf5storage/utilities.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..99915cb 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1425,17 +1425,20 @@ def set_attributes_all(
                 val = value
             if k not in existing:
                 attrs.create(k, val)
-            elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
             else:
+                # Variable length values (e.g. MATLAB_fields) can't be
+                # modified in place reliably and are always recreated.
                 try:
-                    if (
-                        val.dtype == existing[k].dtype
+                    in_place = (
+                        not val.dtype.hasobject
+                        and val.dtype == existing[k].dtype
                         and val.shape == existing[k].shape
-                    ):
-                        attrs.modify(k, val)
-                except:
+                    )
+                except AttributeError:
+                    in_place = False
+                if in_place:
+                    attrs.modify(k, val)
+                else:
                     attrs.create(k, val)
     # Discard all other attributes.
     if discard_others:
-- 
2.43.0


From 854e87c7a5f04b0dc48f824f0d3ee14573d7e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 04/48] fix: only reject paths that are inside
 group_for_references

---
 src/hdf5storage/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index e4dc844..9db1f13 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -726,9 +726,10 @@ class Options:
         # set it. If it is something other than "/#refs#", then we are
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
-            pth = posixpath.normpath(value)
+            # normpath keeps exactly two leading slashes.
+            pth = posixpath.normpath(value).replace("//", "/")
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
@@ -1903,7 +1904,7 @@ class File(collections.abc.MutableMapping):
                         posixpath.join(prefix, groupname, targetname),
                     ),
                 )
-                != "/"
+                == self._options.group_for_references
             ):
                 raise ValueError(
                     "Cannot write to paths inside the the "
@@ -2009,7 +2010,7 @@ class File(collections.abc.MutableMapping):
                         posixpath.join(prefix, groupname, targetname),
                     ),
                 )
-                != "/"
+                == self._options.group_for_references
             ):
                 raise ValueError(
                     "Cannot read from paths inside the the "
-- 
2.43.0


From eea3406fad6118f18ffefddf48a369f1c7226367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 05/48] fix: don't let writes and deletes remove the references
 Group

---
 src/hdf5storage/__init__.py | 45 ++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 9db1f13..ef669eb 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1806,6 +1806,29 @@ class File(collections.abc.MutableMapping):
             if self._writable:
                 self._file.flush()
 
+    def _holds_references(self: "File", groupname: str, targetname: str) -> bool:
+        """Whether changing a path would change the references Group.
+
+        Parameters
+        ----------
+        groupname : str
+            The Group part of the path.
+        targetname : str
+            The target part of the path.
+
+        Returns
+        -------
+        yesno : bool
+            Whether the path is inside the Group specified by the
+            ``group_for_references`` option or contains it. The root
+            contains it but is allowed.
+
+        """
+        refs = self._options.group_for_references
+        pth = posixpath.normpath(posixpath.join("/", groupname, targetname))
+        pth = pth.replace("//", "/")
+        return pth != "/" and posixpath.commonpath((refs, pth)) in (refs, pth)
+
     def write(self: "File", data: Any, path: pathesc.Path = "/") -> None:
         """Writes one piece of data into the file.
 
@@ -1893,19 +1916,7 @@ class File(collections.abc.MutableMapping):
         towrite = []
         for p, v in mdict.items():
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                == self._options.group_for_references
-            ):
+            if self._holds_references(groupname, targetname):
                 raise ValueError(
                     "Cannot write to paths inside the the "
                     "Group specified by the "
@@ -2221,6 +2232,9 @@ class File(collections.abc.MutableMapping):
             If the file is closed or it isn't writable.
         TypeError
             If `path` is an invalid type.
+        ValueError
+            If deleting `path` would delete the Group specified by the
+            ``group_for_references`` option or something inside it.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2230,6 +2244,11 @@ class File(collections.abc.MutableMapping):
             raise OSError("File is not writable.")
         # Process the path.
         groupname, targetname = pathesc.process_path(path)
+        if self._holds_references(groupname, targetname):
+            raise ValueError(
+                "Cannot delete the Group specified by the "
+                "group_for_references option or paths inside it.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
-- 
2.43.0


From 383b42e577fe2c746855e4994ecbdee414d3ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/48] fix: don't write elements into a deleted references
 Group

---
 src/hdf5storage/utilities.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 99915cb..98443e8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -410,6 +410,19 @@ class LowLevelFile:
         h5py.Reference
 
         """
+        # The references Group might have been deleted since it was last
+        # used (e.g. writing a dict to the root deletes everything else
+        # in it if the delete_unused_variables option is set), in which
+        # case everything known about it is outdated.
+        if (
+            self._refs_group is not None
+            and self._f.get(self._options.group_for_references) != self._refs_group
+        ):
+            self._refs_group = None
+            self._created_refs_group = None
+            self._canonical_empty = None
+            self._refs_group_counter = 0xB
+
         # We need the Group to hold references. We might already have
         # it. If not, we need to create the Group if it isn't present
         # and get its handle, while storing the handle and noting
-- 
2.43.0


From 0b7306e088846aca9c9f17158b658fdb12d5f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 07/48] fix: honour the oned_as option when set to column

---
 src/hdf5storage/Marshallers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..3b7e5ab 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -793,8 +793,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+            if len(data.shape) == 1 and f.options.oned_as == "column":
+                # Each string of a 1d array of strings that was converted
+                # to uints is a row of characters.
+                if data_to_store.size == 0:
+                    new_data3 = new_data3.T
+                else:
+                    new_data3 = new_data3.reshape((data.shape[0], -1))
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 77139cea9d72620f0abacf0280f9859b5898f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 08/48] fix: decode complex numbers stored with custom
 complex_names

---
 src/hdf5storage/Marshallers.py |  4 ++--
 src/hdf5storage/utilities.py   | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3b7e5ab..fd4e5db 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1376,7 +1376,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a complex type, then it needs to be decoded
             # properly.
             if underlying_type.startswith("complex"):
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If its underlying type is 'bool' but it is something else,
             # then it needs to be converted (means it was written with
@@ -1500,7 +1500,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # could possibly be a complex type which needs to be
             # properly decoded.
             if matlab_class in {"single", "double"}:
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If it is a logical, then it must be converted to
             # numpy.bool8.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 98443e8..e4ef7ba 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1268,12 +1268,15 @@ def decode_complex(
     real_fields = ["r", "re", "real"]
     imag_fields = ["i", "im", "imag", "imaginary"]
 
-    cnames = list(complex_names)
-    for s in fields:
-        if s.lower() in real_fields:
-            cnames[0] = s
-        elif s.lower() in imag_fields:
-            cnames[1] = s
+    cnames: List[Optional[str]] = [None, None]
+    if set(fields) == set(complex_names):
+        cnames = list(complex_names)
+    else:
+        for s in fields:
+            if s.lower() in real_fields:
+                cnames[0] = s
+            elif s.lower() in imag_fields:
+                cnames[1] = s
 
     # If the real and imaginary fields were found, construct the complex
     # form from the fields. This is done by finding the complex type
-- 
2.43.0


From 6e4a8b64fd31d0c66557d1a905f52d3e521436ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 09/48] fix: handle non-native byte order complex and str
 arrays

---
 src/hdf5storage/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e4ef7ba..5f7d91e 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -789,7 +789,8 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    native = np.asarray(data, dtype=data.dtype.newbyteorder("="))
+    return native.ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
@@ -1325,6 +1326,9 @@ def encode_complex(
     decode_complex
 
     """
+    # The fields will have native byte order.
+    data = data.astype(data.dtype.newbyteorder("="), copy=False)
+
     # Grab the dtype name, and convert it to the right non-complex type
     # if it isn't already one.
     dtype_name = data.dtype.name
-- 
2.43.0


From fd08bbd8e13a11e270742307b9e2aee38fd4ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 10/48] fix: write zero dimensional str arrays

---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index fd4e5db..a4b9b36 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -780,7 +780,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 or (
                     isinstance(data_to_store, np.ndarray)
                     and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
+                    != np.atleast_1d(data_to_store).shape[-1]
+                    * (data_to_store.dtype.itemsize // 4)
                 )
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
-- 
2.43.0


From 84a125a89cfa9098aa7ccfb1ecb6653d138ff205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 11/48] fix: read structured arrays having a field of only
 empty strings

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a4b9b36..8688869 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1282,6 +1282,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 first = v.flat[0]
                 dt = first.dtype
                 sp = first.shape
+                # A field can't have a zero length string type.
+                if dt.itemsize == 0 and dt.char in "SU":
+                    dt_whole.append((k, "object"))
+                    continue
                 all_same = True
                 try:
                     for x in v.flat:
-- 
2.43.0


From 0a594d1817a80bcfd41b1150921432e40395ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/48] fix: store dict-likes with empty or clashing string
 keys as keys and values

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8688869..98d59b3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1818,9 +1818,15 @@ class PythonDictMarshaller(TypeMarshaller):
                 field_str = escape_path(convert_to_str(field))
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
+                # h5py can only use names that can be encoded in UTF-8.
+                field_str.encode("utf-8")
             except:
                 any_non_valid_str_keys = True
                 break
+        # Empty names and duplicate names (e.g. 'a' and b'a') can't be
+        # stored individually.
+        if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
+            any_non_valid_str_keys = True
 
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
-- 
2.43.0


From ccacba03a5067d0b4aa5fbfe3de3f29973e5b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 13/48] fix: read back strings whose last character has a null
 low byte

---
 src/hdf5storage/utilities.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 5f7d91e..398cf7a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -996,6 +996,21 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
+            # If there are no UTF-16 surrogates, each element is just the
+            # code of one character, which is exactly how numpy stores
+            # them. numpy.char.decode can't be used then because the
+            # trailing nulls that it drops could be part of the last
+            # character (e.g. U+4E00).
+            if data.dtype.name == "uint16" and not np.any((data >> 11) == 0x1B):
+                data = data.astype(np.uint32)
+            if (
+                data.dtype.name == "uint32"
+                and data.size != 0
+                and np.all(data <= sys.maxunicode)
+            ):
+                native = np.ascontiguousarray(data, dtype=np.uint32)
+                return native.view("U" + str(length_to_use)).reshape(tuple(new_shape))
+
             # numpy.char.decode will be used to decode. It needs the
             # encoding (UTF-8/16/32) which is gotten from the dtype. But
             # it also needs the data to be in big endian format, so it
-- 
2.43.0


From 66d76da45c8881600cfe33f2f90a84d6b65b6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 14/48] fix: don't lose the trailing nulls of strings and bytes

---
 src/hdf5storage/Marshallers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 98d59b3..34f5149 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1441,12 +1441,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     if python_empty == 1:
                         data = np.bytes_(b"")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        # numpy drops trailing nulls.
+                        data = np.bytes_(data.flat[0].ljust(data.itemsize, b"\x00"))
                 elif underlying_type.startswith("str"):
                     if python_empty == 1:
                         data = np.unicode_("")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        # numpy drops trailing nulls.
+                        data = np.unicode_(
+                            data.flat[0].ljust(data.itemsize // 4, "\x00"),
+                        )
                 else:
                     data = data.flat[0]
             elif container == "ndarray" or (
-- 
2.43.0


From 028385cc06471c4e127b4b27a0babdd9c8d0dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/48] fix: read back UTF-16 strings whose last doublet has a
 null low byte

---
 src/hdf5storage/utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 398cf7a..6da4112 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1011,6 +1011,14 @@ def convert_to_numpy_str(
                 native = np.ascontiguousarray(data, dtype=np.uint32)
                 return native.view("U" + str(length_to_use)).reshape(tuple(new_shape))
 
+            # UTF-16 has to be decoded string by string for the same
+            # reason.
+            if data.dtype.name == "uint16" and data.size != 0:
+                chunks = np.ascontiguousarray(data, "<u2").reshape((-1, length_to_use))
+                return np.array([x.tobytes().decode("UTF-16LE") for x in chunks]).reshape(
+                    tuple(new_shape),
+                )
+
             # numpy.char.decode will be used to decode. It needs the
             # encoding (UTF-8/16/32) which is gotten from the dtype. But
             # it also needs the data to be in big endian format, so it
-- 
2.43.0


From a46a43392d4d25aed642b613b2d3581e53cf0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/48] fix: never store strings having UTF-16 doublets as
 UTF-16

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 34f5149..6a58704 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -773,6 +773,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     new_data2 = convert_numpy_str_to_uint16(data_to_store)
             if (
                 new_data2 is None
+                or np.any((new_data2 >> 11) == 0x1B)
                 or (
                     type(data_to_store) == np.unicode_
                     and len(data_to_store) != len(new_data2)
-- 
2.43.0


From f0036442e3adb4e4b178c5ef90632270fa849ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 17/48] fix: don't drop a leading U+FEFF of strings and read
 lone surrogates

---
 src/hdf5storage/utilities.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6da4112..3ffb36b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -850,10 +850,12 @@ def convert_to_str(
     ):
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
+        # The byte order is given explicitly so that nothing is mistaken
+        # for a BOM.
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.astype("<u2").tobytes().decode("UTF-16LE")
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.astype("<u4").tobytes().decode("UTF-32LE")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -861,7 +863,11 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            if isinstance(data, np.unicode_):
+                # The str constructor would drop trailing nulls.
+                return "".join(data)
+            data = data.astype(data.dtype.newbyteorder("<"))
+            return data.tobytes().decode("UTF-32LE")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From a810f6e1fda666db77223b317d7a6339cbdfc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 18/48] fix: convert bytes arrays that aren't contiguous to
 UTF-16

---
 src/hdf5storage/Marshallers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 6a58704..9a2c60f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -747,8 +747,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
-                    .view(np.ndarray)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.uint8)
                     .astype(np.uint16)
                 )
-- 
2.43.0


From 99a62aa6130aacca3c9d0d4fcfe162323ff92fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 19/48] fix: convert bytes arrays and uint arrays without a
 given length to numpy strings

---
 src/hdf5storage/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 3ffb36b..eae639b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -954,7 +954,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")  # type: ignore[arg-type]
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
@@ -976,6 +976,8 @@ def convert_to_numpy_str(
             shape = list(data.shape)
             if len(shape) == 0:
                 return convert_to_numpy_str(data[()])
+            if data.size == 0:
+                return np.zeros(shape, dtype="U1")
 
             # As there are more than one element, it gets a bit more
             # complicated. We need to take the subarrays of the
@@ -1178,7 +1180,7 @@ def convert_to_numpy_bytes(
             if len(shape) == 1:
                 if length is None:
                     length2 = shape[0]
-                    new_shape = [shape[0]]
+                    new_shape = [1]
                 else:
                     length2 = length
                     new_shape = [shape[0] // length2]
-- 
2.43.0


From f24bf313babd0147b45da95c328f8e3c2e8dc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 20/48] fix: unescape paths in a single pass

---
 src/hdf5storage/pathesc.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..4ab7de0 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -64,7 +64,7 @@ _find_invalid_escape_re: Pattern[str] = re.compile(
 )
 _find_fslashnull_re: Pattern[str] = re.compile("[\\\\/\x00]")
 _find_escapes_re: Pattern[str] = re.compile(
-    "\\\\+(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
+    "\\\\(\\\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
 )
 _char_escape_conversions: Dict[str, str] = {"\x00": "\\x00", "/": "\\x2f", "\\": "\\\\"}
 
@@ -118,8 +118,8 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     r"""Decode single hex/unicode escapes found in regex matches.
 
     Supports single hex/unicode escapes of the form ``'\xYY'``,
-    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit. Only
-    decodes if there is an odd number of backslashes.
+    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit; and double
+    backslashes.
 
     .. versionadded:: 0.2
 
@@ -133,13 +133,10 @@ def _replace_fun_unescape(m: Match[str]) -> str:
         The unescaped character.
 
     """
-    slsh = b"\\".decode("ascii")
-    s = m.group(0)
-    count = s.count(slsh)
-    if count % 2 == 0:
+    s = m.group(1)
+    if s == "\\":
         return s
-    c = chr(int(s[(count + 1) :], base=16))
-    return slsh * (count - 1) + c
+    return chr(int(s[1:], base=16))
 
 
 def escape_path(pth: Union[str, bytes]) -> str:
@@ -229,10 +226,9 @@ def unescape_path(pth: Union[str, bytes]) -> str:
     # Look for invalid escapes.
     if _find_invalid_escape_re.search(pth) is not None:
         raise ValueError("Invalid escape found.")
-    # Do all hex/unicode escapes.
-    s = _find_escapes_re.sub(_replace_fun_unescape, pth)
-    # Do all double backslash escapes.
-    return s.replace(b"\\\\".decode("ascii"), b"\\".decode("ascii"))
+    # Do all escapes in one pass so that a backslash that came from one
+    # is never taken to be part of another.
+    return _find_escapes_re.sub(_replace_fun_unescape, pth)
 
 
 def process_path(pth: Path) -> Tuple[str, str]:
-- 
2.43.0


From 3f09d80a4e920fa19fd64f8add10a4177881c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 21/48] fix: accept pure paths without any parts

---
 src/hdf5storage/pathesc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 4ab7de0..1322b94 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -285,9 +285,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
-- 
2.43.0


From f564e3b1350ed07e5b27d96505afdd129a0fa9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 22/48] fix: don't add any marshallers if one of them is
 invalid

---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index ef669eb..bf49e44 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1340,12 +1340,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # Nothing is added unless all of them can be.
+        marshallers = list(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From caf69242f0b0bb63a98f0041d3bfc44a23d35749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 23/48] fix: accept list paths when writing a single object

---
 src/hdf5storage/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index bf49e44..4d1a79f 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1866,6 +1866,12 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Separated paths might not be hashable (e.g. list).
+        if isinstance(path, collections.abc.Sequence) and not isinstance(
+            path,
+            (str, bytes),
+        ):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2214,6 +2220,12 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Separated paths might not be hashable (e.g. list).
+        if isinstance(path, collections.abc.Sequence) and not isinstance(
+            path,
+            (str, bytes),
+        ):
+            path = tuple(path)
         self.writes({path: data})
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
-- 
2.43.0


From 69a7e676742ca33fe390b405932b8ff5470b027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 24/48] fix: store the fold of datetime.time and
 datetime.datetime

---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9a2c60f..b6edb25 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2236,6 +2236,9 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
         }
         if type(data) in attrs:
             cdata = {k: getattr(data, k) for k in attrs[type(data)]}
+            # Older versions can read it if fold is left out.
+            if getattr(data, "fold", 0) != 0:
+                cdata["fold"] = data.fold
         elif type(data) == datetime.timezone:
             parts = data.__reduce__()[1]
             if len(parts) == 1:
-- 
2.43.0


From fc038462cd8872bffabaa3badba9ba2799130687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 25/48] fix: write dict-likes and structs inside of groups with
 non-ASCII names

---
 src/hdf5storage/Marshallers.py | 2 +-
 src/hdf5storage/utilities.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b6edb25..88862e4 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1882,7 +1882,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = convert_to_numpy_bytes(grp2.name)
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index eae639b..8dd4555 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1471,7 +1471,7 @@ def set_attributes_all(
             attrs.create(k, [convert_to_str(s) for s in value], dtype=str_arr_dtype)
         else:
             if kind == "string":
-                val = np.bytes_(value)
+                val = convert_to_numpy_bytes(value)
             else:
                 val = value
             if k not in existing:
-- 
2.43.0


From 1d742f95290d810b2b57f171b02d47daefcef66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 26/48] fix: give Counters the documented MATLAB class

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 88862e4..ced38d9 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1784,6 +1784,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From dc4a43f946a2567a7569212555878b8d52ed761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 27/48] fix: store padded arrays of strings as UTF-16 when they
 can be

---
 src/hdf5storage/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8dd4555..de9f5eb 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -745,8 +745,10 @@ def convert_numpy_str_to_uint16(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # just have convert to uin16 with the appropriate dimensions. The
     # dimensions are gotten from the shape of the converted data with
     # the number of column increased by the number of words (pair of
-    # bytes) in the strings.
+    # bytes) in the strings. The strings must be as long as before even
+    # if they are all padded.
     cdata = np.char.encode(np.atleast_1d(data), codec)
+    cdata = cdata.astype(f"S{max(cdata.dtype.itemsize, data.dtype.itemsize // 2)}")
     shape = list(cdata.shape)
     shape[-1] *= cdata.dtype.itemsize // 2
     return np.ndarray(shape=shape, dtype="uint16", buffer=cdata)
-- 
2.43.0


From 18661f8560625b9502e74b872ecf21ab475b7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 28/48] fix: store the documented type string for int

---
 src/hdf5storage/Marshallers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ced38d9..8ce9862 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1587,9 +1587,10 @@ class PythonScalarMarshaller(NumpyScalarArrayMarshaller):
         # the variable width long. Python 2 with the 0.1.x version of
         # this library would save with either, but Python 3 needs to map
         # both to int, which can be done by just putting the type int
-        # for its entry in types.
+        # for its entry in types. The last one is the one used for
+        # writing.
         self.types = (bool, int, int, float, complex)
-        self.python_type_strings = ("bool", "int", "long", "float", "complex")
+        self.python_type_strings = ("bool", "long", "int", "float", "complex")
         # As the parent class already has MATLAB strings handled, there
         # are no MATLAB classes that this marshaller should be used for.
         self.matlab_classes = ()
-- 
2.43.0


From 4fabc462271f424782394a8801dc70c885d44895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 29/48] fix: escape the names used for the keys and values of
 dict-likes

---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8ce9862..e58a08b 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1866,7 +1866,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From a1e01f798101f5c2f5614924a0238409fdd63f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 30/48] fix: write recarrays with nested structures as Groups

The elements of the nested fields were numpy.record, which there is no
marshaller for.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e58a08b..f1e21e1 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -735,6 +735,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # for h5py to be able to write them.
         if isinstance(data_to_store, np.core.records.recarray):
             data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                np.dtype((np.void, data_to_store.dtype)),
+            )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From e6b2ff1a2ace60f5a03247e13d5f8d6672adf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 31/48] fix: store empty arrays of strings as UTF-16 whatever
 their shape

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f1e21e1..f4bbfaa 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -782,6 +782,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 )
                 or (
                     isinstance(data_to_store, np.ndarray)
+                    and data_to_store.nbytes != 0
                     and new_data2.shape[-1]
                     != np.atleast_1d(data_to_store).shape[-1]
                     * (data_to_store.dtype.itemsize // 4)
-- 
2.43.0


From 759dc8d194bb371ec77c03cfa831ebcb8f72b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 32/48] fix: read structs whose fields were discarded or that
 have none

A field that was discarded when writing (it is not MATLAB compatible)
made reading the whole struct raise KeyError, and a Group without any
fields raised UnboundLocalError.
---
 src/hdf5storage/Marshallers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f4bbfaa..729ba27 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1268,13 +1268,21 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 # python_fields need to be added to the list.
                 extra_fields = list(set(struct_data) - set(fields))
                 fields.extend(sorted(extra_fields))
+                # And given fields may not be available (they were
+                # discarded when writing).
+                fields = [k for k in fields if k in struct_data]
             else:
                 fields = sorted(struct_data)
 
+            # The shape of the structured ndarray is that of the object
+            # arrays of its fields. Without any, it is a single element.
+            shape_whole: Tuple[int, ...] = (1,)
+
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
             for k in fields:
                 # Read the value.
                 v = struct_data[k]
+                shape_whole = v.shape
 
                 # If any of the elements are not Numpy types or if they
                 # don't all have the exact same dtype and shape, then
@@ -1307,9 +1315,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     dt_whole.append((k, "object"))
 
             # Make the structured ndarray with the constructed
-            # dtype. The shape is simply the shape of the object arrays
-            # of its fields, so we might as well use the shape of
-            # v. Then, all the elements of every field need to be
+            # dtype. Then, all the elements of every field need to be
             # assigned. Now, if dtype's itemsize is 0, a TypeError will
             # be thrown by numpy due to a bug in numpy. np.zeros (as
             # well as ones and empty) does not like to make arrays with
@@ -1319,9 +1325,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # at least no errors will happen.
             dtwhole = np.dtype(dt_whole)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=shape_whole, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=shape_whole, dtype=dtwhole)
 
             for k, v in struct_data.items():
                 # There is no sense iterating through the elements if
-- 
2.43.0


From d011f9b349834bb73ded8c3a7410fb7bc2461e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 33/48] fix: raise ValueError for escapes beyond the unicode
 range

---
 src/hdf5storage/pathesc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 1322b94..4af1ce8 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -32,6 +32,7 @@ import pathlib
 import posixpath
 import re
 import sys
+import sys
 from typing import Dict, Tuple, Union
 
 if sys.version_info >= (3, 9):
@@ -132,11 +133,19 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     c : str
         The unescaped character.
 
+    Raises
+    ------
+    ValueError
+        If it is the escape of a value that isn't a unicode character.
+
     """
     s = m.group(1)
     if s == "\\":
         return s
-    return chr(int(s[1:], base=16))
+    value = int(s[1:], base=16)
+    if value > sys.maxunicode:
+        raise ValueError("Invalid escape found.")
+    return chr(value)
 
 
 def escape_path(pth: Union[str, bytes]) -> str:
-- 
2.43.0


From b2db0262a82d670f17e89efa150f33f16918ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 34/48] fix: take relative paths going above their start from
 the root

---
 src/hdf5storage/pathesc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 4af1ce8..29cc75c 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -323,6 +323,10 @@ def process_path(pth: Path) -> Tuple[str, str]:
     # Remove double slashes and a non-root trailing slash.
     path = posixpath.normpath(p)
 
+    # Relative paths are taken from the root, which has no parent.
+    while path == ".." or path.startswith("../"):
+        path = path[3:]
+
     # Extract the group name and the target name (will be a dataset if
     # data can be mapped to it, but will end up being made into a group
     # otherwise. As HDF5 files use posix path, conventions, posixpath
-- 
2.43.0


From bb6b43bf2e8903a388f2bd8a647c7f4f9b09a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 35/48] fix: reject paths with nulls or that can't be encoded

---
 src/hdf5storage/__init__.py | 2 +-
 src/hdf5storage/pathesc.py  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 4d1a79f..964cb83 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2105,7 +2105,7 @@ class File(collections.abc.MutableMapping):
         """
         try:
             groupname, targetname = pathesc.process_path(path)
-        except TypeError:
+        except (TypeError, ValueError):
             return False
         # File operations must be synchronized.
         with self._lock:
diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 29cc75c..0822b9c 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -280,6 +280,8 @@ def process_path(pth: Path) -> Tuple[str, str]:
     ------
     TypeError
         If `pth` is not of the right type.
+    ValueError
+        If `pth` has an unescaped null or can't be encoded as UTF-8.
 
     See Also
     --------
@@ -320,6 +322,11 @@ def process_path(pth: Path) -> Tuple[str, str]:
             "those three.",
         )
 
+    # Names in HDF5 files are null terminated UTF-8.
+    if "\x00" in p:
+        raise ValueError("pth has an unescaped null.")
+    p.encode("utf-8")
+
     # Remove double slashes and a non-root trailing slash.
     path = posixpath.normpath(p)
 
-- 
2.43.0


From d874a0e81e84a658031e7dba49096b38ff0d891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 36/48] fix: remove the old values of fields that are discarded

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 729ba27..1fa5ec7 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -946,6 +946,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         esc_attrs,
                         np.prod(new_data4.shape) != 1,
                     )
+                elif esc_field in dsetgrp:
+                    # It was discarded, but there is an old value.
+                    del dsetgrp[esc_field]
         else:
             wrote_as_struct = False
 
@@ -1907,6 +1910,9 @@ class PythonDictMarshaller(TypeMarshaller):
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+            elif k in grp2:
+                # It was discarded, but there is an old value.
+                del grp2[k]
         # Done
         return grp2
 
-- 
2.43.0


From ebe9039ff17b4261b98377eb60e8e6b0b71b5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 37/48] fix: overwriting Datasets compressed with lzf or szip

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1fa5ec7..9dfce23 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1003,7 +1003,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or dsetgrp.compression != filters["compression"]
                     or dsetgrp.shuffle != filters["shuffle"]
                     or dsetgrp.fletcher32 != filters["fletcher32"]
-                    or dsetgrp.compression_opts != filters["compression_opts"]
+                    or dsetgrp.compression_opts != filters.get("compression_opts")
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0


From 00eaee8a57dbe06d63b6da91778b352f2ab3d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 38/48] fix: overwriting variable length strings and enums

Datasets of variable length strings and enums were overwritten in place
by values whose dtype differs only in h5py's metadata (References and
plain integers), which failed or kept the old type.
---
 src/hdf5storage/Marshallers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9dfce23..a2f4edc 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -993,12 +993,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # Dataset, has the wrong dtype, is the wrong shape, doesn't
             # use the same compression, or doesn't use the same filters;
             # then it must be deleted and then written. Otherwise, it is
-            # just overwritten in place.
+            # just overwritten in place. h5py marks References, variable
+            # length strings, and enums only with the dtype's metadata.
             try:
                 dsetgrp = grp[name]
                 if (
                     not isinstance(dsetgrp, h5py.Dataset)
                     or dsetgrp.dtype != data_to_store.dtype
+                    or dsetgrp.dtype.metadata != data_to_store.dtype.metadata
                     or dsetgrp.shape != data_to_store.shape
                     or dsetgrp.compression != filters["compression"]
                     or dsetgrp.shuffle != filters["shuffle"]
-- 
2.43.0


From e49c6f35e505e883378f14316c0b6940774039c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 39/48] fix: don't cut off UTF-8 when converting UTF-16 and
 UTF-32 arrays to bytes

convert_to_numpy_bytes made the strings as long as the number of code units,
which is not enough for characters that aren't ASCII.
---
 src/hdf5storage/utilities.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index de9f5eb..5977603 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1203,23 +1203,22 @@ def convert_to_numpy_bytes(
                     buffer=data,
                 )
 
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
-            new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
-            )
-
             # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
+            # length sized chunks and convert them.
             data = data.ravel()
-            for i in range(0, new_data.shape[0]):
-                chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
+            chunks = [
+                convert_to_str(data[(i * length2) : ((i + 1) * length2)]).encode("UTF-8")
+                for i in range(int(np.prod(new_shape)))
+            ]
+
+            # The new array has enough padding to hold everything (the
+            # UTF-8 can be longer than the number of characters). It
+            # starts out as a 1d array and is reshaped into the proper
+            # shape later.
+            new_data = np.array(
+                chunks,
+                dtype=f"S{max([length2, *map(len, chunks)])}",
+            )
 
             # Only thing is left is to reshape it.
             return new_data.reshape(tuple(new_shape))
-- 
2.43.0


From ed78d750381e5b63ba2ce5025a37cc00ec4e1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 40/48] fix: convert uint8 arrays of any memory layout to bytes

convert_to_numpy_bytes took Fortran ordered arrays in the wrong order and
raised an exception if they weren't contiguous.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 5977603..e040825 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1200,7 +1200,7 @@ def convert_to_numpy_bytes(
                 return np.ndarray(
                     shape=new_shape,
                     dtype="S" + str(length2),
-                    buffer=data,
+                    buffer=np.ascontiguousarray(data),
                 )
 
             # With data flattened into a 1d array, we just need to take
-- 
2.43.0


From b15738a891ca9b12bf4a8233e11c19e48fc114fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 41/48] fix: convert arrays with empty rows to bytes

convert_to_numpy_bytes raised ZeroDivisionError.
---
 src/hdf5storage/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e040825..bc0364e 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1191,8 +1191,9 @@ def convert_to_numpy_bytes(
                     length2 = shape[-1]
                 else:
                     length2 = length
+                # Rows without anything in them have no strings.
                 new_shape = copy.deepcopy(shape)
-                new_shape[-1] //= length2
+                new_shape[-1] //= max(length2, 1)
 
             # If it is uint8, we can just use the object directly as the
             # buffer for the new data.
-- 
2.43.0


From d2ab9f448fdc4d8c3802c5de4427fbd5c2b963cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 42/48] fix: convert empty arrays of bytes to arrays of str

convert_to_numpy_str returned arrays of float64.
---
 src/hdf5storage/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index bc0364e..690e066 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -956,6 +956,9 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
+            if data.size == 0:
+                # numpy.char.decode would give it the wrong dtype.
+                return np.zeros(data.shape, dtype="U1")
             return np.char.decode(data, "UTF-8")  # type: ignore[arg-type]
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
-- 
2.43.0


From aae0132ba54bf7c7f35445e28830ab7c675cdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 43/48] fix: convert uint32 that aren't characters without
 SystemError

convert_to_numpy_str raised SystemError for codes beyond Unicode.
---
 src/hdf5storage/utilities.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 690e066..6c403de 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -965,10 +965,8 @@ def convert_to_numpy_str(
             # wrapped into an array and recursed.
             return convert_to_numpy_str(np.atleast_1d(data))[0]
         if isinstance(data, np.uint32):
-            # It is just the uint32 version of the character, so it just
-            # needs to be have the dtype essentially changed by having
-            # its bytes read into ndarray.
-            return np.ndarray(shape=(), dtype="U1", buffer=data.data)[()]
+            # It is just the code of the character.
+            return np.array(chr(data))[()]
         if isinstance(data, np.ndarray) and data.dtype.name in {
             "uint8",
             "uint16",
-- 
2.43.0


From 7e9c53ccfea7cb50e5813d22da95f7ec88f024a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 44/48] fix: ignore unhashable option values

Setting an option to an invalid value is ignored, but a list or an array for
those with a set of choices raised TypeError.
---
 src/hdf5storage/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 964cb83..decee67 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -415,7 +415,7 @@ class Options:
     ) -> None:
         # Check that it is one of the allowed values, and then set
         # it. This option does not effect MATLAB compatibility.
-        if value in {"ignore", "discard", "error"}:
+        if isinstance(value, str) and value in {"ignore", "discard", "error"}:
             self._action_for_matlab_incompatible = value
 
     @property
@@ -753,7 +753,7 @@ class Options:
     @oned_as.setter
     def oned_as(self: "Options", value: OnedAs) -> None:
         # Check that it is one of the valid values before setting it.
-        if value in {"row", "column"}:
+        if isinstance(value, str) and value in {"row", "column"}:
             self._oned_as = value
 
     @property
@@ -895,7 +895,7 @@ class Options:
         # Check that it is one of the valid values before setting it. If
         # it is something other than 'gzip', then we are not doing
         # MATLAB compatible formatting.
-        if value in {"gzip", "lzf", "szip"}:
+        if isinstance(value, str) and value in {"gzip", "lzf", "szip"}:
             self._compression_algorithm = value
         if self._compression_algorithm != "gzip":
             self._matlab_compatible = False
-- 
2.43.0


From 7195dde6db3214fa80e8c2cb23a40b29a3b2a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 45/48] fix: modules that raise something else while imported
 can't be used

Looking up or adding a marshaller raised the exception of the required module,
the latter after adding it to the list but before the lookup tables were
updated.
---
 src/hdf5storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index decee67..82624f5 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1219,7 +1219,7 @@ class MarshallerCollection:
                 for name in m.required_parent_modules:
                     if name not in sys.modules and pkgutil.find_loader(name) is None:
                         raise ImportError("module not present")
-            except ImportError:
+            except Exception:
                 self._has_required_modules[i] = False
             else:
                 self._has_required_modules[i] = True
@@ -1301,7 +1301,7 @@ class MarshallerCollection:
             for name in m.required_modules:
                 if name not in sys.modules:
                     importlib.import_module(name)
-        except ImportError:
+        except Exception:
             return False
         return True
 
-- 
2.43.0


From 1c097b288915c6d9cae2782014af483cf3586678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 46/48] fix: keep the references Group when unused items of the
 root Group are deleted

Writing a dict (or structured array) to '/' with unused variables being
deleted first deleted the Group for references.  When writing the items
then failed, the objects not replaced yet had dangling references.
---
 src/hdf5storage/Marshallers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a2f4edc..1fcf64e 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -895,7 +896,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    # The Group for references is not a field, and
+                    # objects that are yet to be replaced may refer to
+                    # things in it.
+                    path = posixpath.join(dsetgrp.name, field)
+                    if path != f.options.group_for_references:
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1895,7 +1901,10 @@ class PythonDictMarshaller(TypeMarshaller):
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                # The Group for references is not an item, and objects
+                # that are yet to be replaced may refer to things in it.
+                if posixpath.join(grp2.name, field) != f.options.group_for_references:
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
-- 
2.43.0


From 51b9a3ca39320f6e9f52e9056b70d2f205036aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 47/48] fix: read structured arrays in compound Datasets back
 as such

The types of the fields of empty ones were lost, and ones whose fields
are named 'r' and 'i' were read as complex numbers.
---
 src/hdf5storage/Marshallers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1fcf64e..9955160 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1372,6 +1372,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             else:
                 struct_dtype = None
 
+            # h5py reads a structure whose only fields are 'r' and 'i'
+            # as complex numbers. If it was a structure, it needs to be
+            # turned back into one.
+            if (
+                underlying_type.startswith(("void", "record"))
+                and data.dtype.kind == "c"
+            ):
+                part = data.real.dtype
+                data = data.view([("r", part), ("i", part)])
+
             # If it is empty ('Python.Empty' set to 1), then the shape
             # information is stored in data and we need to set data to
             # the empty array of the proper type (in underlying_type)
@@ -1393,7 +1403,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
                 elif struct_dtype is not None:
-                    data = np.zeros(tuple(shape), dtype=struct_dtype)
+                    # A Dataset still has the types of the fields.
+                    if isinstance(dset, h5py.Dataset) and data.dtype.names:
+                        data = np.zeros(tuple(shape), dtype=data.dtype)
+                    else:
+                        data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
                 if matlab_class is not None or f.options.reverse_dimension_order:
-- 
2.43.0


From 9aa37ff12c98e572f78bacf9e611ba854cbbfea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 48/48] fix: don't delete objects that have the name of the
 canonical empty

Something else in the references Group named 'a', which may be an element
of another object, was deleted. It is given another name instead, which
the references to it follow.
---
 src/hdf5storage/utilities.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6c403de..9bf178c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -452,7 +452,7 @@ class LowLevelFile:
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
         # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
         # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
+        # giving anything previously there another name.
         if self._canonical_empty is None:
             self._canonical_empty = self._refs_group.get("a", default=None)
             if self._canonical_empty is not None:
@@ -468,7 +468,7 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    self._refs_group.move("a", self._random_refs_name())
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
@@ -611,7 +611,7 @@ class LowLevelFile:
         # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
         # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
         # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
+        # giving anything previously there another name.
         if self._canonical_empty is None:
             self._canonical_empty = self._refs_group.get("a", default=None)
             if self._canonical_empty is not None:
@@ -627,7 +627,7 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    self._refs_group.move("a", self._random_refs_name())
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
@@ -638,6 +638,18 @@ class LowLevelFile:
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
 
+        return self._random_refs_name()
+
+    def _random_refs_name(self: "LowLevelFile") -> str:
+        """Gives a random unused name in the references Group.
+
+        Returns
+        -------
+        name : str
+            A name that isn't already an existing Dataset or Group in
+            the references Group.
+
+        """
         # We need to make a random name and check for collisions.
         #
         # While using random.choice on string.ascii_letters + string.digits seems
-- 
2.43.0

