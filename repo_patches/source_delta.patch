From 810f69133c6962940df4673e5fecab0d02bf189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 01/40] fix: parallel_unique keeps the units of its input on
 ranks with no elements

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..29be9e0 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -956,7 +956,7 @@ def parallel_unique(arr, comm=None, arr_sorted=False, return_counts=False,
 
     else:
         # This rank has no elements
-        local_unique = np.zeros(0, dtype=arr.dtype)
+        local_unique = np.empty_like(arr, shape=0)
         local_count = np.zeros(0, dtype=int)
 
     mycomm.Free()
-- 
2.43.0


From c4185c94b85c0dea21bdaf35969d386086f2589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 02/40] fix: parallel_bincount accepts 64 bit unsigned input

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 29be9e0..33bb627 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1122,7 +1122,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
     # Find the maximum value in x
     x_max = np.amax(x) if len(x) > 0 else 0
     x_max = comm.allreduce(x_max, op=MPI.MAX)
-    total_nr_bins = x_max+1
+    total_nr_bins = int(x_max)+1
 
     # Find total number of bins needed
     if minlength is not None:
-- 
2.43.0


From 96925ad1304c00c9b99a60db230f9c4e4b2b8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 03/40] fix: collective read and write make progress if a row
 exceeds the buffer size

---
 python/virgo/mpi/parallel_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..56bca99 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,7 +139,7 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        buffer_size_elements = max(1, buffer_size // element_size)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -235,7 +235,7 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    max_elements = max(1, buffer_size // element_size)
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From b9413516c64803ebf751ae2538a7fb936691e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 04/40] fix: collective_write raises on every rank if any
 rank's type or shape differs

---
 python/virgo/mpi/parallel_hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 56bca99..0366821 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -204,13 +204,13 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     # Need to have all dimensions but the first the same between ranks
     shape_local = tuple(data.shape[1:])
     shape_rank0 = tuple(comm.bcast(shape_local))
-    if shape_local != shape_rank0:
+    if comm.allreduce(shape_local != shape_rank0, op=MPI.LOR):
         raise ValueError("Inconsistent data shapes in collective_write()!")
 
     # Need to have the same data type on all ranks
     dtype_local = data.dtype
     dtype_rank0 = comm.bcast(dtype_local)
-    if dtype_local != dtype_rank0:
+    if comm.allreduce(dtype_local != dtype_rank0, op=MPI.LOR):
         raise ValueError("Inconsistent data types in collective_write()!")
 
     # Find the full shape of the new dataset
-- 
2.43.0


From ecacaa99c6edd2f219b4eed4e5f241bb1b68b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 05/40] fix: MultiFile.read raises on every rank if files
 disagree about a dataset's shape

---
 python/virgo/mpi/parallel_hdf5.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 0366821..791d4d9 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -443,21 +443,29 @@ class MultiFile:
                     attrs = data[name][0].attrs
 
                 inconsistent_dtype = False
+                inconsistent_shape = False
                 if len(data[name]) > 1:
                     for dset in data[name][1:]:
                         if dset.dtype != data[name][0].dtype:
                             inconsistent_dtype = True
+                        if dset.shape[1:] != data[name][0].shape[1:]:
+                            inconsistent_shape = True
 
-                data[name] = np.concatenate(data[name])
-                if read_attributes:
-                    data[name] = AttributeArray(data[name], attrs=attrs)
+                if not inconsistent_shape:
+                    data[name] = np.concatenate(data[name])
+                    if read_attributes:
+                        data[name] = AttributeArray(data[name], attrs=attrs)
             else:
                 inconsistent_dtype = False
+                inconsistent_shape = False
                 data[name] = None
 
             inconsistent_dtype = self.comm.allreduce(inconsistent_dtype)
             if inconsistent_dtype:
                 raise RuntimeError(f"Inconsistent dtype for {name}")
+            inconsistent_shape = self.comm.allreduce(inconsistent_shape)
+            if inconsistent_shape:
+                raise RuntimeError(f"Inconsistent shape for {name}")
 
         # Combine file indexes
         if file_nr is not None:
@@ -582,7 +590,7 @@ class MultiFile:
             for name in file_nr:
                 file_nr[name] = virgo.mpi.util.replace_none_with_zero_size(file_nr[name], self.comm)
 
-        # Ensure all ranks have the same dtype
+        # Ensure all ranks have the same dtype and shape (apart from the first dimension)
         for name in data:
             if data[name] is not None:
                 dtypes = self.comm.gather(data[name].dtype)
@@ -593,6 +601,9 @@ class MultiFile:
                 inconsistent_dtype = self.comm.bcast(inconsistent_dtype)
                 if inconsistent_dtype:
                     raise RuntimeError(f"Inconsistent dtype for {name}")
+                shapes = self.comm.allgather(data[name].shape[1:])
+                if len(set(shapes)) != 1:
+                    raise RuntimeError(f"Inconsistent shape for {name}")
 
         # Attributes may now be missing from any zero size arrays we created
         if read_attributes:
-- 
2.43.0


From 540b0fc4e931e48c8a2142af67a00badc8b6e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 06/40] fix: attributes of datasets in binary files ignored the
 byte order already in force

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..af32706 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -175,6 +175,7 @@ class BinaryGroup(Mapping):
                 if tail in self.datasets[head].attrs:
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
+                new_block.endian = endian
                 self.datasets[head].attrs._items[tail] = new_block
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
-- 
2.43.0


From 35e8eb248089a4a894c30fdae2272317f8233d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 07/40] fix: default mode of BinaryFile.write_binary is not a
 valid file mode

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index af32706..c913895 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -503,7 +503,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 8e1391e220f0b52220423b205178525f1cb7777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 08/40] fix: write_hdf5 lost attributes of the top level group
 and failed on empty datasets

---
 python/virgo/util/read_binary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index c913895..7a2d899 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -213,6 +213,10 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # Copy attributes of this group
+        for attr_name in self.attrs.keys():
+            h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
@@ -220,7 +224,7 @@ class BinaryGroup(Mapping):
             src_dset = self.datasets[dataset_name]
 
             # Determine chunk size for output
-            if gzip > 0:
+            if gzip > 0 and src_dset.size > 0:
                 chunks = tuple([s if s < chunk_size else chunk_size for s in src_dset.shape])
             else:
                 chunks = None
@@ -244,8 +248,6 @@ class BinaryGroup(Mapping):
         # Loop over groups in this group and create in output file
         for group_name in self.groups.keys():
             new_group = h5group.create_group(group_name)
-            for attr_name in self.groups[group_name].attrs.keys():
-                new_group.attrs[attr_name] = self.groups[group_name].attrs[attr_name]
             # Recursively write sub-groups
             self.groups[group_name].write_hdf5(h5group=new_group, gzip=gzip)
 
-- 
2.43.0


From 8e33b794089fd7cdd91b5163b67772d159b9fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 09/40] fix: closing a BinaryFile left it mapped if only
 skipped blocks had been read

---
 python/virgo/util/read_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 7a2d899..c5fdb0b 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -502,6 +502,12 @@ class BinaryFile(BinaryGroup):
         elif self.endian == "=":
             self.enable_byteswap(True)
 
+    def close(self):
+        """Close the file, including blocks which were read and skipped"""
+        BinaryGroup.close(self)
+        for block in self.all_blocks:
+            block.close()
+
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-- 
2.43.0


From e9c3398642f8b367b6898d8f051f9477527f7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 10/40] fix: toggle_byteswap did not apply to blocks which were
 already declared

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index c5fdb0b..84de8a7 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -496,9 +496,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From 9b0a5b4d604aaf9b74d80529fefd132e159ae95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 11/40] fix: binary files named by a relative path were mixed
 up after a change of directory

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 84de8a7..c28f245 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -283,7 +283,7 @@ class BinaryDataset:
 
     def __init__(self, fname, dtype, offset, shape, name):
         self.file   = None
-        self.fname  = fname
+        self.fname  = os.path.abspath(fname) # Still refers to this file if we change directory
         self.dtype  = np.dtype(dtype)
         self.offset = offset
         self.shape  = tuple([int(i) for i in shape]) # Ensure we have tuple of ints
@@ -417,7 +417,7 @@ class BinaryFile(BinaryGroup):
     """
     def __init__(self, fname):
         BinaryGroup.__init__(self, "")
-        self.fname = fname
+        self.fname = os.path.abspath(fname)
         self.offset = 0
         self.endian = "="
         self.all_blocks = []
-- 
2.43.0


From ad5f09a5987c47da1e892cce0f77b64e5fde6b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 12/40] fix: extra datasets of a Gadget snapshot may be any
 sequence, as documented

---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From 746b969614223ea00b49edc1a67c9524764eb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 13/40] fix: L-Gadget2 group_ids files could not be opened

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From e96ad45428301be4f88658c71066f591ecc5136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 14/40] fix: VELOCIraptor properties files could not be opened
 with numpy 1.24 or later

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..965f382 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    int)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 499b3f70f8a7717b30f4f62338f3b05b27773f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 15/40] fix: MXXL sub_tab files could not be opened

---
 python/virgo/sims/mxxl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..dbc5f86 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,13 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        # L-Gadget3 output does not have these
+        if WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("Subfind outputs in type 2 binary snapshot format are not implemented")
+        if SO_BAR_INFO:
+            raise NotImplementedError("Subfind outputs with SO_BAR_INFO set are not implemented")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From 45785b46a3aa59504ea31c129bce04aceb4bf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 16/40] fix: the last particle of a Gadget-4 group was lost if
 it started a new file

last_in_snap was the index of the first particle of the next file, so the
loop over files could stop one particle early.
---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..ba4ef14 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -274,7 +274,7 @@ class GroupOrderedSnapshot():
                 self.npart_file[ifile,:] = snap["Header"].attrs["NumPart_ThisFile"][:]
 
             # Check if any particles we need are in this file
-            last_in_snap = first_in_snap + self.npart_file[ifile,:]
+            last_in_snap = first_in_snap + self.npart_file[ifile,:] - 1
 
             # Loop over quantities to read
             for dataset in ("Coordinates","Velocities","ParticleIDs"):
-- 
2.43.0


From e3a29dfd7732ecfd37b158b418f9f53efb725d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 17/40] fix: Gadget-4 snapshots with no subgroups at all could
 not be opened

---
 python/virgo/formats/subfind_gadget4.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index ba4ef14..c44f05c 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -207,7 +207,10 @@ class GroupOrderedSnapshot():
         self.foflentype = np.concatenate(self.foflentype, axis=0)
         self.nsubs      = np.concatenate(self.nsubs,      axis=0)
         self.firstsub   = np.concatenate(self.firstsub,   axis=0)
-        self.sublentype = np.concatenate(self.sublentype, axis=0)
+        if len(self.sublentype) > 0:
+            self.sublentype = np.concatenate(self.sublentype, axis=0)
+        else:
+            self.sublentype = np.zeros((0,6), dtype=np.int32)
 
         # Calculate offset to each fof group for each particle type
         self.fof_offset = np.cumsum(self.foflentype, dtype=np.int64, axis=0) - self.foflentype
-- 
2.43.0


From d4b309afeac516b0ab6478d1311d6dd75a5493be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 18/40] fix: read_region of L-Gadget2 snapshots failed with
 floating point indices

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..1985d65 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 45043c9511eb62b5ccb455a87a3e53386f441b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 19/40] fix: sanity check of L-Gadget2 snapshots used floating
 point shifts

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 1985d65..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 375001a8888819af0e3ba7b7862b2dcbf838b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 20/40] fix: PartialFormatter lost conversions and lookups of
 fields it leaves

{a!r} became the repr of an internal object and {a.b} or {a[0]} raised an
exception if a was not given.
---
 python/virgo/util/partial_formatter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..fd08a3a 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -1,6 +1,7 @@
 #!/bin/env python
 
 import string
+import _string
 
 class FormatKey:
     def __init__(self, key):
@@ -44,6 +45,20 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def get_field(self, field_name, args, kwargs):
+        # Fields which are left unchanged keep any attribute or element lookup
+        first, _ = _string.formatter_field_name_split(field_name)
+        value = self.get_value(first, args, kwargs)
+        if isinstance(value, FormatKey):
+            return FormatKey(field_name), first
+        return super().get_field(field_name, args, kwargs)
+
+    def convert_field(self, value, conversion):
+        # ... and any conversion
+        if isinstance(value, FormatKey):
+            return FormatKey(f"{value.key}!{conversion}") if conversion else value
+        return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 3baea5796427efee963b52dd0bb35059bc22930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 21/40] fix: eagle_filename mixed up relative directories after
 a change of directory

---
 python/virgo/sims/eagle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/sims/eagle.py b/python/virgo/sims/eagle.py
index b3c4586..be16f07 100644
--- a/python/virgo/sims/eagle.py
+++ b/python/virgo/sims/eagle.py
@@ -1,6 +1,7 @@
 #!/bin/env python
 
 import glob
+import os
 import re
 
 def eagle_filename(basedir, basename, isnap, ifile, cache={}):
@@ -22,7 +23,7 @@ def eagle_filename(basedir, basename, isnap, ifile, cache={}):
         }
     dir_name = dir_names[basename]
 
-    key = (basedir, basename, isnap)
+    key = (os.path.abspath(basedir), basename, isnap)
     if key in cache:
         # We already know the redshift label for this sn[ia]pshot
         zstr  = cache[key]
-- 
2.43.0


From 4404ec99b352b6b70b27b9fbc634345f6633771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 22/40] fix: eagle_filename failed if the directory name
 contains wildcard characters

---
 python/virgo/sims/eagle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/sims/eagle.py b/python/virgo/sims/eagle.py
index be16f07..4a16c3d 100644
--- a/python/virgo/sims/eagle.py
+++ b/python/virgo/sims/eagle.py
@@ -32,7 +32,7 @@ def eagle_filename(basedir, basename, isnap, ifile, cache={}):
     else:
         # Don't know the redshift label, so need to access filesystem with glob
         pattern = ("%s/%s_%03d_z???p???/%s_%03d_z???p???.%d.hdf5" % 
-                   (basedir, dir_name, isnap, basename, isnap, ifile))
+                   (glob.escape(basedir), dir_name, isnap, basename, isnap, ifile))
         fname = glob.glob(pattern)
         if len(fname) != 1:
             raise IOError("Unable to find single file matching %s" % pattern)
-- 
2.43.0


From 8f8bec2fcf12e57c92ec5759c226df0e288f8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 23/40] fix: group catalogues in a directory with a % in its
 name could not be read

---
 python/virgo/formats/subfind_gadget4.py  | 2 +-
 python/virgo/formats/subfind_pgadget3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index c44f05c..4176238 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -129,7 +129,7 @@ class GroupCatalogue(Mapping):
                         "SubMassInRad", "SubMassInRadType", "SubMostBoundID", "SubGrNr", "SubParent"]
 
         # Construct format string for file names
-        fname_fmt = ("%s/groups_%03d/fof_subhalo_tab_%03d" % (basedir, isnap, isnap)) + ".%(i)d"
+        fname_fmt = ("%s/groups_%03d/fof_subhalo_tab_%03d" % (str(basedir).replace("%", "%%"), isnap, isnap)) + ".%(i)d"
 
         # Get number of files
         f = SubTabFile(fname_fmt % {"i":0}, id_bytes=id_bytes)
diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..6d3d3bc 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -382,7 +382,7 @@ class GroupCatalogue(Mapping):
                 datasets += ["VelDisp_Mean200",  "VelDisp_Crit200",  "VelDisp_TopHat200"]
 
         # Construct format string for file names
-        fname_fmt = ("%s/groups_%03d/subhalo_tab_%03d" % (basedir, isnap, isnap)) + ".%(i)d"
+        fname_fmt = ("%s/groups_%03d/subhalo_tab_%03d" % (str(basedir).replace("%", "%%"), isnap, isnap)) + ".%(i)d"
 
         # Get number of files
         f = SubTabFile(fname_fmt % {"i":0}, 
-- 
2.43.0


From d24777cf8d6f6a0fbd25c9818cca341713c82160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 24/40] fix: numpy_type raised NameError (missing import of re)

---
 python/virgo/database/make_dtrees_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..74798d0 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
@@ -37,7 +38,7 @@ def sql_type(dtype):
 
 def numpy_type(sqltype):
     """Given an SQL data type, return the corresponding numpy type"""
-    m = re.match("char\(([0-9]+)\)", sqltype.strip())
+    m = re.match(r"char\(([0-9]+)\)", sqltype.strip())
     if m is not None:
         # It's a string
         return np.dtype("|S"+m.group(1))
-- 
2.43.0


From 4cc86ea099eaa68698f416706334d2f702f4507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 25/40] fix: extensible=.false. created an extensible dataset

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..7d9b9af 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -77,7 +77,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From efdeeebe439584d674a83a5378dbb43fe231fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 26/40] fix: reading a dataset which was overwritten since the
 last read returned the old contents

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 7d9b9af..a015f88 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -116,7 +116,14 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
 
   ! Open or create the dataset
   ! --------------------------
-  
+
+  ! The last read may have left this dataset open. If it is about to be
+  ! replaced the next read must not find the old one.
+  if(open_dset)then
+     call h5dclose_f(open_dset_id, hdf_err)
+     open_dset = .false.
+  endif
+
   call h5eset_auto_f(0, hdf_err)
   call h5dopen_f(file_id(ifile), name, dset_id, hdf_err)
   dset_opened = (hdf_err.eq.0)
-- 
2.43.0


From 5093f9fdc93f7e80bfa8306501a3eea9adca8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 27/40] fix: extensible or compressed datasets could not be
 created with no elements

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index a015f88..68c1c38 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -206,7 +206,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      call h5pcreate_f(H5P_DATASET_CREATE_F, prop_id, hdf_err) 
      ! Decide on chunk size based on the initial size of the dataset
      do i = 1, file_rank, 1
-        nchunk(i) = min(file_dims(i),nchunk_max(i))
+        nchunk(i) = max(1_hsize_t,min(file_dims(i),int(nchunk_max(i),hsize_t)))
      end do
      ! Only use chunking if we need it (saves space for small datasets)
      if(gzip_level.gt.0.or.szip_on.or.extensible_on) &
-- 
2.43.0


From b6ea2bbc440755d874311691065cab17af9015fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 28/40] fix: datasets with no elements could be written but not
 read

---
 fortran/hdf5_wrapper/src/read_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..22e1551 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -203,7 +203,7 @@
          name=name,fname=fname_table(ifile))
 
     ! Select the part of this dataspace that will hold the data
-    if(eff_array_rank.gt.0)then
+    if(file_rank.gt.0)then ! Can't use select hyperslab on scalar dataspace
        hs_start(1:file_rank) = 0
        hs_count(1:file_rank) = read_dims(1:file_rank)
        call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
-- 
2.43.0


From f622cad9ad6ee27deabbeabdb5cc1f23bec6b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 29/40] fix: single elements were read into, or written from,
 arrays with no elements

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 6 +++---
 fortran/hdf5_wrapper/src/write_dataset.inc | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 22e1551..dd3fd91 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -137,7 +137,7 @@
     ! Throw away any of these dimensions with size 1
     eff_read_rank = 0
     do i = 1, file_rank, 1
-       if(read_dims(i).gt.1)then
+       if(read_dims(i).ne.1)then
           eff_read_rank = eff_read_rank + 1
           eff_read_dims(eff_read_rank) = read_dims(i)
           ! For each effective dimension this gives the index of the 'real'
@@ -157,7 +157,7 @@
 
     eff_array_rank = 0
     do i = 1, array_rank, 1
-       if(array_dims(i).gt.1)then
+       if(array_dims(i).ne.1)then
           eff_array_rank = eff_array_rank + 1
           eff_array_dims(eff_array_rank) = array_dims(i)
           ! For each effective dimension this gives the index of the 'real'
@@ -166,7 +166,7 @@
        endif
     end do
 
-    ! All dimensions with size>1 have to be at least as big
+    ! All dimensions with size/=1 have to be at least as big
     ! in the array as in the file dataset, otherwise the data
     ! isn't going to fit.
     if(eff_array_rank.ne.eff_read_rank)then
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 68c1c38..ed185ba 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -333,7 +333,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   ! as the dataset in the file.
   j = 0
   do i = 1, file_rank, 1
-     if(select_dims(i).gt.1)then
+     if(select_dims(i).ne.1)then
         j = j + 1
         eff_select_dims(j) = select_dims(i)
         eff_select_idx(j) = i
@@ -343,7 +343,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
 
   j = 0
   do i = 1, array_rank, 1
-     if(array_dims(i).gt.1)then
+     if(array_dims(i).ne.1)then
         j = j + 1
         eff_array_dims(j) = array_dims(i)
      endif
-- 
2.43.0


From 2ca4f32c0f340d4f5e7c631ef5787a03236cc3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 30/40] fix: one row could not be read into or written from a
 larger array of the same rank

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 22 +++++++++++++++++-----
 fortran/hdf5_wrapper/src/write_dataset.inc | 18 +++++++++++++++---
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index dd3fd91..a76c3fa 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -34,6 +34,7 @@
     integer(kind=hsize_t) :: read_dims(7), eff_read_dims(7), read_dim_idx(7)
     ! Information about the dimensions of the array
     integer               :: array_rank, eff_array_rank
+    logical               :: same_rank
     integer(kind=hsize_t) :: array_dims(7),  eff_array_dims(7), array_dim_idx(7)
     ! Dimensions of the memory dataspace
     integer(kind=hsize_t) :: memspace_dims(7), maxdims(7)
@@ -166,9 +167,15 @@
        endif
     end do
 
-    ! All dimensions with size/=1 have to be at least as big
+    ! An array with the rank of the dataset which is big enough in every
+    ! dimension can be used as it is
+    same_rank = (array_rank.eq.file_rank)
+    if(same_rank)same_rank = all(array_dims(1:file_rank).ge.read_dims(1:file_rank))
+
+    ! Otherwise, all dimensions with size/=1 have to be at least as big
     ! in the array as in the file dataset, otherwise the data
     ! isn't going to fit.
+    if(.not.same_rank)then
     if(eff_array_rank.ne.eff_read_rank)then
        write(0,*)'Array rank (omitting dimensions with size=1) : ',eff_array_rank
        write(0,*)'Data  rank (omitting dimensions with size=1) : ',eff_read_rank
@@ -182,6 +189,7 @@
             'Data to be read does not fit in the supplied array', &
             name=name,fname=fname_table(ifile))
     end do
+    endif
 
     ! Now we need to create a dataspace to describe the array in memory,
     ! then select the region that the data to be read in will occupy.
@@ -190,10 +198,14 @@
     ! the dimensions of the array (e.g. may want to read a 2D slice of
     ! a 3D dataset, or read a single value from a 1D dataset into a scalar).
     memspace_dims(1:7) = 1
-    do i = 1, eff_array_rank, 1
-       j = read_dim_idx(i)
-       memspace_dims(j) = eff_array_dims(i)
-    end do
+    if(same_rank)then
+       memspace_dims(1:file_rank) = array_dims(1:file_rank)
+    else
+       do i = 1, eff_array_rank, 1
+          j = read_dim_idx(i)
+          memspace_dims(j) = eff_array_dims(i)
+       end do
+    endif
 
     ! Create the memory dataspace
     maxdims(1:file_rank) = memspace_dims(1:file_rank)
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index ed185ba..46426ef 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -41,6 +41,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   ! Size of the input array
   integer                             :: array_rank, select_rank
   integer(kind=hsize_t)               :: array_dims(7), select_dims(7)
+  logical                             :: same_rank
   integer(kind=hsize_t)               :: hs_start(7), hs_count(7)
   !
   integer(kind=hsize_t)               :: eff_select_rank, eff_array_rank, pad_dims(7)
@@ -350,6 +351,12 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   end do
   eff_array_rank = j
 
+  ! An array with the rank of the dataset which is big enough in every
+  ! dimension can be used as it is
+  same_rank = (array_rank.eq.file_rank)
+  if(same_rank)same_rank = all(array_dims(1:file_rank).ge.select_dims(1:file_rank))
+
+  if(.not.same_rank)then
   ! Check dataset and array have the same rank, ignoring dimensions of size 1
   if(eff_array_rank.ne.eff_select_rank)call hdf5_abort( &
        'The supplied data does not have the same number'//&
@@ -363,12 +370,17 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
           'the count parameter in write_data',&
           name=name,fname=fname_table(ifile))    
   end do
+  endif
 
   ! Generate the padded dimensions array.
   pad_dims(1:7) = 1
-  do i = 1, eff_array_rank, 1
-     pad_dims(eff_select_idx(i)) = eff_array_dims(i)
-  end do
+  if(same_rank)then
+     pad_dims(1:file_rank) = array_dims(1:file_rank)
+  else
+     do i = 1, eff_array_rank, 1
+        pad_dims(eff_select_idx(i)) = eff_array_dims(i)
+     end do
+  endif
 
   ! Use this to create the dataspace to describe the array in memory
   maxdims(1:file_rank) = pad_dims(1:file_rank)
-- 
2.43.0


From cd383952c23cfb2337690b1661ae519e322c3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 31/40] fix: attributes of the root group could not be accessed
 as /name

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90    | 4 ++--
 fortran/hdf5_wrapper/src/read_attribute.inc  | 2 +-
 fortran/hdf5_wrapper/src/write_attribute.inc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..a7c5e4e 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -532,7 +532,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_dimensions()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(1,nslash-1)) ! '/' if it's in the root group
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
@@ -628,7 +628,7 @@ contains
        if(nslash.eq.0)call hdf5_abort( &
             'Invalid dataset/attribute name in get_type()!', &
             fname=fname_table(ifile),name=name)
-       loc_name=name(1:nslash-1)
+       loc_name=name(1:max(1,nslash-1)) ! '/' if it's in the root group
        attr_name=name(nslash+1:len_trim(name))
 
        ! Try to open loc_name as a group then as a dataset
diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 5a69943..4644445 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -58,7 +58,7 @@ subroutine SUB_NAME (ifile,name,arr)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(1,nslash-1)) ! '/' if it's in the root group
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
diff --git a/fortran/hdf5_wrapper/src/write_attribute.inc b/fortran/hdf5_wrapper/src/write_attribute.inc
index 0b66709..6e65f3f 100644
--- a/fortran/hdf5_wrapper/src/write_attribute.inc
+++ b/fortran/hdf5_wrapper/src/write_attribute.inc
@@ -53,7 +53,7 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
               name=name,fname=fname_table(ifile))
       endif
       
-      loc_name=name(1:nslash-1)
+      loc_name=name(1:max(1,nslash-1)) ! '/' if it's in the root group
       attr_name=name(nslash+1:len_trim(name))
       ! Try to open loc_name as a group and as a dataset
       itype=1
-- 
2.43.0


From befb206d55efe0d4faed071675fd86b83fcbeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 32/40] fix: long paths were truncated when accessing
 attributes

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90    | 4 ++--
 fortran/hdf5_wrapper/src/read_attribute.inc  | 4 ++--
 fortran/hdf5_wrapper/src/write_attribute.inc | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index a7c5e4e..2b7d36c 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -510,7 +510,7 @@ contains
     integer(hsize_t), dimension(10) :: hdf_dims,hdf_maxdims
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)+1) :: loc_name,attr_name
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in get_dimensions',name=name)
@@ -604,7 +604,7 @@ contains
     integer :: hdf_err, hdf_err2
     logical :: isattribute, isgroup
     integer :: nslash
-    character(len=200) :: loc_name,attr_name
+    character(len=len(name)+1) :: loc_name,attr_name
     integer, intent(out) :: size
     integer(kind=size_t) :: h5size
 
diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 4644445..e20ad07 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -17,8 +17,8 @@ subroutine SUB_NAME (ifile,name,arr)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name)+1)      :: loc_name
+      character(len=len(name)+1)      :: attr_name
       integer                         :: nslash
       integer                         :: itype
 #ifndef SCALAR
diff --git a/fortran/hdf5_wrapper/src/write_attribute.inc b/fortran/hdf5_wrapper/src/write_attribute.inc
index 6e65f3f..492e127 100644
--- a/fortran/hdf5_wrapper/src/write_attribute.inc
+++ b/fortran/hdf5_wrapper/src/write_attribute.inc
@@ -18,8 +18,8 @@ subroutine SUB_NAME (ifile,name,arr,overwrite)
 #else
       ARR_TYPE                        :: arr
 #endif
-      character(len=LEN_STR)          :: loc_name
-      character(len=LEN_STR)          :: attr_name
+      character(len=len(name)+1)      :: loc_name
+      character(len=len(name)+1)      :: attr_name
       integer                         :: nslash
       integer                         :: itype
       logical, optional               :: overwrite
-- 
2.43.0


From 1e160e7d14fd1ab889377ec32e55b769af061bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 33/40] fix: create_group overran an array with more than 10
 nested groups

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 2b7d36c..960ffe5 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -726,12 +726,12 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
-    integer(hid_t)                  :: id_chain(MAX_NEST)
+    ! Names can't contain more groups than characters
+    integer(hid_t)                  :: id_chain(len(name)+1)
     integer(hid_t)                  :: group_id, loc_id
-    integer, parameter              :: LEN_STR = 256
+    integer                         :: LEN_STR
 
-    character(len=LEN_STR)          :: thestring,currentgroup
+    character(len=len(name)+1)      :: thestring,currentgroup
     integer          :: i,n_nest, starti, endi, hdf_err
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
@@ -741,6 +741,7 @@ contains
          "Attempt to create group in read only file!", &
          name=name,fname=fname_table(ifile));
 
+    LEN_STR = len(thestring)
     thestring = name
     i = index(thestring,slash)
     if (i .eq. 1) then
-- 
2.43.0


From 1b96f4577def1e91c71cd7eb06a13479058d5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 34/40] fix: list_attributes could not list names
 (h5aopen_idx_f fails with recent HDF5 versions)

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 960ffe5..4518d42 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -969,7 +969,8 @@ contains
     ! Get the names of the attributes
     if(present(attrib_names))then
        do i = 1, nattribs, 1
-          call h5aopen_idx_f(loc_id, i-1, attr_id, hdf_err)
+          call h5aopen_by_idx_f(loc_id, ".", H5_INDEX_NAME_F, H5_ITER_INC_F, &
+               int(i-1,kind=hsize_t), attr_id, hdf_err)
           if(hdf_err.ne.0) call hdf5_abort( &
                'Unable to open attribute in list_attributes()!', &
                name=name,fname=fname_table(ifile))
-- 
2.43.0


From dc5bbd005472a4538a376c711d5852840c30f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 35/40] fix: file table was not initialised until the first
 file was opened

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 4518d42..c71e221 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -40,7 +40,7 @@ module hdf5_wrapper
 
   ! table of currently open files
   integer :: nopen = 0
-  integer(hid_t), dimension(nfilemax) :: file_id
+  integer(hid_t), dimension(nfilemax) :: file_id = -1
   logical, dimension(nfilemax) :: read_only
   character(len=1000), dimension(nfilemax)     :: fname_table
 
@@ -57,7 +57,7 @@ module hdf5_wrapper
   integer(hid_t) :: NATIVE_REAL8
 
   ! Information about the currently open dataset
-  logical             :: open_dset
+  logical             :: open_dset = .false.
   integer(hid_t)      :: open_dset_id
   character(len=1000) :: open_file_name, open_dset_name
 
-- 
2.43.0


From fc05f11f307a8d7e9caeb58548707e142cc9ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 36/40] fix: HDF_ERROR_SUPPRESS was inverted if the first file
 was created

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index c71e221..1fc7dec 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -396,7 +396,7 @@ contains
        needInit=.false.
        fname_table(1:nfilemax) = '*'
        if(do_open)call h5open_f(hdf_err)
-       if (HDF_ERROR_SUPPRESS .gt. 0) then
+       if (HDF_ERROR_SUPPRESS .eq. 0) then
           call h5eset_auto_f(1, hdf_err2)
        else
           !Verbosity = 0, supress HDF5 error messages
-- 
2.43.0


From 3b605bda28ae355db48271a6560a9bb8574a9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 37/40] fix: seven dimensional integer arrays were written as
 two dimensional

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From 98ecec07c13143b692d1aa39faa01d124b907668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 38/40] fix: allow reading of SWIFT datasets with units which
 involve current

The conversion to CGS used to compare units with the declared conversion
factor is not implemented in unyt for units which include powers of
current, so reading (for example) magnetic fields in soap mode raised a
UnitsNotReducible exception.
---
 python/virgo/formats/swift.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/virgo/formats/swift.py b/python/virgo/formats/swift.py
index 1742c5b..62ad67b 100644
--- a/python/virgo/formats/swift.py
+++ b/python/virgo/formats/swift.py
@@ -88,15 +88,17 @@ def soap_units_from_attributes(attrs, registry):
     """
     # Determine unyt unit for this quantity
     u = unyt.dimensionless
+    cgs_unit = unyt.dimensionless # Same dimensions as u, in cm, g, s, K and A
     unit_system = registry.unit_system
     base = registry.unit_system.base_units
-    for symbol, baseunit in (("I", base[dim.current_mks]),
-                             ("L", base[dim.length]),
-                             ("M", base[dim.mass]),
-                             ("T", base[dim.temperature]),
-                             ("t", base[dim.time])):
+    for symbol, baseunit, cgs_base in (("I", base[dim.current_mks], unyt.A),
+                                       ("L", base[dim.length],      unyt.cm),
+                                       ("M", base[dim.mass],        unyt.g),
+                                       ("T", base[dim.temperature], unyt.K),
+                                       ("t", base[dim.time],        unyt.s)):
         unit = unyt.Unit(baseunit, registry=registry)
         exponent = attrs["U_%s exponent" % symbol][0]
+        cgs_unit = cgs_unit*(cgs_base**exponent)
         if exponent == 1.0:
             if u is unyt.dimensionless:
                 u = unit
@@ -133,7 +135,8 @@ def soap_units_from_attributes(attrs, registry):
         cgs_conversion_from_attrs = float(attrs["Conversion factor to physical CGS (including cosmological corrections)"])
     except KeyError:
         cgs_conversion_from_attrs = float(attrs["Conversion factor to CGS (including cosmological corrections)"])
-    cgs_conversion_from_unyt = float((1.0*unit).in_cgs().value)
+    # (in_cgs() would raise an exception here if the units involve current)
+    cgs_conversion_from_unyt = float(unit.base_value / cgs_unit.base_value)
     factor = cgs_conversion_from_attrs / cgs_conversion_from_unyt
     if np.isclose(factor, 1.0, atol=0.0, rtol=1.0e-9):
         return unit
-- 
2.43.0


From 7ae1010c9d20f51d20e8ec55763f49b209bc211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 39/40] fix: let consistency check scripts run with Python 3

These used print statements and dict.iteritems(), and comparison of
the bytes read from a file with an empty string, so could not be run
by the Python 3 interpreter which the rest of the package needs.
---
 .../eagle/check_eagle_file_presence.py         | 16 ++++++++--------
 consistency_check/hash/hash_dirs_mpi.py        | 10 +++++-----
 .../p-gadget3/check_pgadget3_file_presence.py  | 18 +++++++++---------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..61f13dc 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..e521589 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if data != b"":
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..e29f945 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
-- 
2.43.0


From a67e2a57cb5ef4c150a23bf46a0d364a79e10933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 40/40] fix: file presence of Eagle runs in a directory with
 wildcard characters in its name

---
 consistency_check/eagle/check_eagle_file_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index 61f13dc..8e600ac 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -7,7 +7,7 @@ import sys
 import os
 import numpy as np
 import h5py
-from glob import glob
+from glob import glob, escape
 from collections import defaultdict
 
 def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
@@ -21,7 +21,7 @@ def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
     if key in cache:
         zstring = cache[key]
     else:
-        pattern  = "%s/%s_%03d_z???p???" % (simdir, dirbase, isnap)
+        pattern  = "%s/%s_%03d_z???p???" % (escape(simdir), dirbase, isnap)
         dirnames = glob(pattern)
         if len(dirnames) == 0:
             raise IOError("Unable to find directory %s" % pattern)
-- 
2.43.0

