From dddb0d7e22c19bc49df4593aa94cebddf220a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/79] fix: derive faces when a face type has no internal or
 no boundary face

---
 cfdtools/meshbase/_connectivity.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..ad65c1b 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -359,8 +359,10 @@ class elem_connectivity:
             iface2cell = indexindirection()  #
             bface2cell = indexindirection()  #
 
-            def face_from_ufacedict(uface_dict):
-                return np.array(list(map(lambda flist: flist[0][0], uface_dict.values())))
+            def face_from_ufacedict(uface_dict, nnode):
+                # shape must be kept even if there is no face
+                facelist = list(map(lambda flist: flist[0][0], uface_dict.values()))
+                return np.array(facelist, dtype=np.int64).reshape(-1, nnode)
 
             # find pairs for a given face type
             for ftype, listfaces in faces_neighbour.items():
@@ -373,14 +375,15 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
+                nnode = len(listfaces[0][0])
+                assert nf_unique <= nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict, nnode))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -389,7 +392,7 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                intfaces = face_from_ufacedict(face_pairs, nnode)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
@@ -399,8 +402,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=np.int64,
+                ).reshape(-1, 2)
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From a68029a863e9b1bc084c98cfb8b4ffa9b06563b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 02/79] fix: derive the edges of triangles

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..7ab302b 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 47a1f2a73f6448b9323782b2847b6b4c68a6d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 03/79] fix: a triangle is extruded to a prism6

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 7ab302b..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From bfdefc2810b95f1f824c239cb5753145c7b165bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 04/79] fix: faces imported from a compressed index have plain
 integer numbers

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index ad65c1b..404dc02 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -270,9 +270,9 @@ class elem_connectivity:
         uniq, counts = np.unique(nodeperface, return_counts=True)
         for facesize, nface in zip(uniq, counts):
             typef = _elem.face_from_nnode[facesize]
-            index = np.argwhere(nodeperface == facesize)
+            index = np.flatnonzero(nodeperface == facesize)
             zind = zconn._index[index]
-            nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
+            nodes = np.column_stack(tuple(zconn._value[zind + i] for i in range(facesize)))
             self.add_elems(typef, nodes, indexlist(ilist=index))
 
     # @profile
-- 
2.43.0


From f7a7feec0bb389c929b3d346c3390c440c0747ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 05/79] fix: accept any order of element numbers in the check
 of a connectivity

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 404dc02..ce8567f 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -215,7 +215,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From 0b724fceab3d71b919f14db68f3f02abec61808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 06/79] fix: number extruded cells with the number of cells of
 a layer

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index ce8567f..2bcdc70 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -439,6 +439,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From 7d58339d74655072da7173bf2337b2095c2daa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 07/79] fix: an empty index list can be compressed

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 2bcdc70..cfdd35a 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -89,7 +89,7 @@ class indexlist:
 
     def compress(self):
         """try to make it a range"""
-        if self._type == 'list':
+        if self._type == 'list' and self._list:
             if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
-- 
2.43.0


From 3b4f9de8fb592573d9428834e0ae7a21374c89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 08/79] fix: pop_celldata removes the data and accepts an
 absent name

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..0020d04 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -323,7 +323,7 @@ class Mesh:
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.pop(name) if name in self._celldata.keys() else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From 43b1fc52a70a033bacfcd95b2173121363f7d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 09/79] fix: coordinates given as lists can be scaled

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 0020d04..9bbe25f 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From 477d9279ca9b43c63aa3da7cf0da4c2e04b23dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 10/79] fix: data can be removed from a data set

---
 cfdtools/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6e24f09 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -105,6 +105,9 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def pop(self, name):
+        return self._data.pop(name)
+
     def dtstats(self, imin=None, imax=None):
         assert self.Trep == 'timeevol' and 'time' in self.keys()
         t = self._data['time'][imin:imax]
-- 
2.43.0


From 01b7a91fb08fb03a5acbb31d3ce514cde77fc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 11/79] fix: apply the option --remove-node-data

---
 cfdtools/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..78c18d2 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -225,6 +225,12 @@ def write_generic(argv, ext, writer, fname=None):
                 log.info(f"  cannot find cell data {var}")
             else:
                 log.info(f"  pop cell data {var}")
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
-- 
2.43.0


From 64f396d8227aa7670ef912139d4d01414d39559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 12/79] fix: export node vectors read from an IC3 file

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..abf02bb 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -531,6 +531,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From 8d327d13a9d57080f5840b87f839cf1302e24918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 13/79] fix: the section id tells where IC3 data are, not their
 number

---
 cfdtools/ic3/reader_legacy.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index abf02bb..4038633 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -434,6 +434,14 @@ class reader(binreader):
         # self.get_datacell_properties()["ndof"] = ndof
         return ndof
 
+    def _data_location(self, h):
+        """location of data (NO, FA or CV) given by the section id; None if the size is not the expected one"""
+        for location, count in (('NO', 'no_count'), ('FA', 'fa_count'), ('CV', 'cv_count')):
+            codes = [ic3_restart_codes.get(f"UGP_IO_{location}_{t}") for t in ('D1', 'D3', 'D33', 'II1')]
+            if h.id[0] in codes and h.idata[0] == self.mesh["params"][count]:
+                return location
+        return None
+
     def _ReadRestartVar(self):
         '''
         Method reading the variables from the restart file
@@ -477,14 +485,15 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            location = self._data_location(h)
+            if location == 'NO':
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif location == 'FA':
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif location == 'CV':
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -526,19 +535,20 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            location = self._data_location(h)
+            if location == 'NO':
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
                 self.nodedata.add_data(h.name, vector)
-            elif h.idata[0] == fa_count:
+            elif location == 'FA':
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif location == 'CV':
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 80f6b71943352ea062254e8484ddbd2b3991c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 14/79] fix: write again the statistics weights read from an
 IC3 file

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..807f269 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+            # weights of statistics, as found by readers
+            weights = {key[:-4]: value for key, value in refdict.items() if key.endswith("_wgt")}
+            self.simstate["wgt"] = {**self.simstate["wgt"], **weights}
 
     def set_vars(self):
         """
-- 
2.43.0


From 0a1b6e96bb4deb596acf341d0a3df6cbc007ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 15/79] fix: internal zone starts at face 0 when there is no
 boundary mark

---
 cfdtools/ic3/writerV2.py | 2 +-
 cfdtools/ic3/writerV4.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index 807f269..6878a21 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -328,7 +328,7 @@ class writer:
         # print('cellofface', self.f2e.ravel().tolist() )
         # Face zones, a.k.a boundary condition patches
         log.info("  marks (face based)")
-        last_boco = 0
+        last_boco = -1
         for key, boco in self.bocos.items():
             assert key == boco.name
             assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..06091b9 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -132,7 +132,7 @@ class writer(writerV2.writer):
         # Face zones, a.k.a boundary condition patches
         log.debug("  Markers of faces / Face zones / boundary condition patches")
         bnd_group = fid.create_group("Boundaries")
-        last_boco = 0
+        last_boco = -1
         labels = []
         kinds = []
         max_range = []
-- 
2.43.0


From df92a66f840ec43da0a639b9a46130107fcacafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 16/79] fix: write all statistics weights in IC3 V4 solution
 files

---
 cfdtools/ic3/writerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index 06091b9..d580235 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -244,7 +244,7 @@ class writer(writerV2.writer):
 
         volume_group = fid.create_group("VolumeStats")
 
-        weights = {name: value for name, value in self._mesh._params.items() if name.endswith("_wgt")}
+        weights = {name.lower() + "_wgt": value for name, value in self.simstate["wgt"].items()}
         volume_group.attrs.update(weights)
 
         for cvname in stats_var:
-- 
2.43.0


From 6a344a5d18a22ceb65994f32087e94768f564a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 17/79] fix: a mesh read from IC3 V4 has no partition to be
 written

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..05100b7 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh.get('partition') is not None:
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From d09f0d7b501cc2fa541be9d91c2dce3652b9af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 18/79] fix: number of cells of an IC3 V4 mesh read without
 solution

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 05100b7..80ea134 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From 89b06063e1b184a8cac68656d2907db90c7f377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 19/79] fix: keep the shape of tensors read from an IC3 V4
 solution

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 80ea134..caeab66 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -293,7 +293,7 @@ class reader:
                 nb_fields = field.size // cv_count
                 if nb_fields > 1:
                     field = field.reshape(-1, nb_fields)
-                self.celldata.add_data(var_up, field)
+                self.celldata.add_data(var_up, field.reshape(-1, 3, 3) if nb_fields == 9 else field)
                 if nb_fields > 1:
                     for component in range(field.shape[1]):
                         print_stats_scalar(var_up + "-%d" % component, field[:, component])
-- 
2.43.0


From 08bd1319821d49e15e813631d20f0fefb13eb0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 20/79] fix: read the face zones of an IC3 file wherever they
 are

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 4038633..ea5e295 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -319,10 +319,12 @@ class reader(binreader):
         log.info("  Parsing boundary conditions...")
         sys.stdout.flush()
         self.mesh['bocos'] = []  # init list of bocos
+        reset_offset = True  # sections can be in any order
         while True:
             h = restartSectionHeader()
-            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=False):
+            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=reset_offset):
                 break
+            reset_offset = False
             # UGP_IO_FA_ZONE header
             # 3 ints: kind, face range (begin, start)
             self.mesh["params"]["nboco"] += 1
@@ -341,8 +343,6 @@ class reader(binreader):
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
-            if h.idata[0] == 6:
-                break
         log.info("end of boundary conditions")
         sys.stdout.flush()
 
-- 
2.43.0


From af3d6395a9af5cbea6868e37ded250952239ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 21/79] fix: refuse IC3 files with a bad number of faces or
 cells in a section

---
 cfdtools/ic3/reader_legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index ea5e295..4adbf99 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -222,6 +222,7 @@ class reader(binreader):
                 sys.stdout.flush()
                 h = restartSectionHeader()
                 h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_FA_CHECK"])
+                assert h.idata[0] == fa_count
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
                 assert np.allclose(faces_id, np.arange(fa_count))
@@ -351,6 +352,7 @@ class reader(binreader):
         sys.stdout.flush()
         h = restartSectionHeader()
         h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_CV_PART"])
+        assert h.idata[0] == cv_count
 
         self.mesh["partition"] = {}
         self.mesh["partition"]['npart'] = h.idata[1]
-- 
2.43.0


From 86e56a948459693ce3bd904482706b917a2db7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 22/79] fix: the mark of unmarked faces does not replace a mark
 of the same name

---
 cfdtools/meshbase/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 9bbe25f..dfb66dd 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -233,6 +233,8 @@ class Mesh:
             list_marked = self.list_boco_index()
             list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
             if list_missing:
+                while name in self._bocos.keys():  # never replace an existing mark
+                    name += "_"
                 boco = submeshmark(name)
                 boco.geodim = 'bdface'
                 boco.type = 'boundary'
-- 
2.43.0


From 9c21620cadabd52f425d2939280a8f027dccf6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 23/79] fix: refuse to write a mesh with overlapping ranges of
 marked faces

---
 cfdtools/ic3/writerV2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index 6878a21..4efb221 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -65,6 +65,10 @@ class writer:
         if any([boco.index.type == 'list' for _, boco in self._mesh._bocos.items()]):
             with api.Timer(task="  reindex boundary faces with boco marks and compress"):
                 self._mesh.reindex_boundaryfaces()
+        bocos = [boco for boco in self._mesh._bocos.values() if boco.type != 'internal']
+        marked = [iface for boco in bocos for iface in boco.index.list()]
+        if len(set(marked)) != len(marked):
+            api.error_stop("some faces are marked by several boundary marks")
 
         log.info("Setting coordinates and connectivity arrays")
 
-- 
2.43.0


From a37810e61abf8575e1183153912a27635503a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 24/79] fix: fields of an IC3 file may have a name starting
 with DEOF

---
 cfdtools/ic3/_ic3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 14558a0..ff0d436 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -271,11 +271,11 @@ class restartSectionHeader:
             ):  # remove trailing spaces
                 self.name += s[i].decode()  # .decode() for python3 portage
                 i += 1
-            if self.name.startswith("DEOF"):
-                break
             # Store the rest of the tokens in the right namespace
             nlen = ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
             self.id[0] = s[nlen]
+            if self.name.startswith("DEOF") and self.id[0] not in ic3_restart_codes.values():
+                break  # any name is allowed for the known sections
             self._skip[0] = s[nlen + self.id.size]  # store size in skip for next read
             ibeg = nlen + self.id.size + self._skip.size
             iend = ibeg + self.idata.size
-- 
2.43.0


From 5886828ac3f3a226ff0d967f92042e56305c6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 25/79] fix: exact comparison of the check sections of an IC3
 file

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 4adbf99..61cca9d 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -213,7 +213,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]
                 s = BinaryRead(self.fid, "%di" % no_count, self.byte_swap, type2nbytes["int32"] * no_count)
                 nodes_id = np.asarray(s)
-                assert np.allclose(nodes_id, np.arange(no_count))
+                assert np.array_equal(nodes_id, np.arange(no_count))
                 log.info("end of node integrity")
                 sys.stdout.flush()
                 del nodes_id
@@ -225,7 +225,7 @@ class reader(binreader):
                 assert h.idata[0] == fa_count
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
-                assert np.allclose(faces_id, np.arange(fa_count))
+                assert np.array_equal(faces_id, np.arange(fa_count))
                 log.info("end of face integrity")
                 sys.stdout.flush()
                 del faces_id
@@ -238,7 +238,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]
                 s = BinaryRead(self.fid, "%di" % cv_count, self.byte_swap, type2nbytes["int32"] * cv_count)
                 cells_id = np.asarray(s)
-                assert np.allclose(cells_id, np.arange(cv_count))
+                assert np.array_equal(cells_id, np.arange(cv_count))
                 log.info("end of cell integrity")
                 sys.stdout.flush()
                 del cells_id
-- 
2.43.0


From 572aeb3ca126ec0241130395aa4816c6c3f708c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 26/79] fix: cfdtools.data can be the first module imported

---
 cfdtools/meshbase/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index dfb66dd..50c129d 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -1,3 +1,5 @@
+from __future__ import annotations  # cfdtools.data imports this module
+
 import itertools
 import logging
 
-- 
2.43.0


From 661c09f36195efd91b4934c9be530ec973208e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 27/79] fix: the XMF companion of a dump does not overwrite an
 existing file

---
 cfdtools/vtk/_vtkList.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..ad962b0 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -130,10 +130,10 @@ class vtkList:
         self._data.set_mesh(vtkmesh.export_mesh())
         actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
         return actual_filename
 
-    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
+    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = True):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
         def xdmf_domain(content):
@@ -151,5 +151,8 @@ class vtkList:
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
+        file = api._files(os.path.splitext(filepath)[0] + ".xmf")
+        if not overwrite:
+            file.find_safe_newfile()
+        with open(file.filename, "w") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0


From 09754fc95a5eac4e04bc6d26e8bc579ab5a0524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 28/79] fix: extrusion keeps the periodic transform of a mark

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 50c129d..d3a5703 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -282,7 +282,7 @@ class Mesh:
             assert boco.nodebased(), "extrusion only possible with node marks"
             newboco = submeshmark(boco.name)
             newboco.geodim = boco.geodim
-            newboco.type = boco.type
+            newboco.properties = dict(boco.properties)
             index = np.tile(boco.index.list(), (nrange))
             nbcnode = boco.index.size
             for i in range(nrange):
-- 
2.43.0


From 7fdd5f81d28ef3be1cde10b5b0c20a9be7e582c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 29/79] fix: merging three connectivities, or an empty one,
 numbers elements without overlap

---
 cfdtools/meshbase/_connectivity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index cfdd35a..bba1371 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -287,12 +287,12 @@ class elem_connectivity:
     def importfrom_merge(self, list_elem):
         # computes size of all elem_connectivity
         sizes = [
-            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
+            sum(e2n['index'].size for _, e2n in elemcon.items())
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        shifts = [sum(sizes[:i]) for i in range(len(sizes))]  # start with 0, last is useless
         mergedict = defaultdict(dict)
-        for shift, elemcon in zip(sizes, list_elem):
+        for shift, elemcon in zip(shifts, list_elem):
             for key, elemtype in elemcon.items():
                 if key in mergedict.keys():
                     mergedict[key]['index'] = mergedict[key]['index'] + elemtype['index'].shift(shift)
-- 
2.43.0


From e782574f2efdbcaf935c2cead3f829a3a40a6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 30/79] fix: adding elements of a known type does not change
 the index list given before

---
 cfdtools/meshbase/_connectivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index bba1371..9c25e63 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -181,7 +181,8 @@ class elem_connectivity:
         ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index
         self._nelem += dim
         if etype in self.elems():
-            self._elem2node[etype]['index'].append(ind.list())
+            # make a new list: the former one may be shared with other objects
+            self._elem2node[etype]['index'] = self._elem2node[etype]['index'] + ind
             self._elem2node[etype]['elem2node'] = np.concatenate(
                 (self._elem2node[etype]['elem2node'], elem2node), axis=0
             )
-- 
2.43.0


From 0907d52c0d9bf82c0326745bb78ec272127bbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 31/79] fix: an empty index list can be printed

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 9c25e63..5986721 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -105,6 +105,8 @@ class indexlist:
         if self._type == 'range':
             return f"range {self._range[0]} to {self._range[1]}"
         elif self._type == 'list':
+            if not self._list:
+                return "list (empty)"
             n = np.array(self._list)
             return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.size)
 
-- 
2.43.0


From 73fe624df9214cca6bf116dda5445395504cd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 32/79] fix: GMSH physical tags are those of one dimension, and
 may have no name

---
 cfdtools/gmsh/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..0e036d4 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,8 +125,9 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
-                if family != "fluid":
+                family = fam.get((self._maxdim - 1, bnd2fam[bnd_tag]))
+                # elements without named group are not marked
+                if family is not None and family != "fluid":
                     self.__create_bnd(
                         boundaries,
                         np.array(bnd[bnd_tag]),
@@ -250,7 +251,8 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
+                # tags are unique in one dimension only
+                fam[int(families[i][0]), int(families[i][1])] = families[i][2][1:-1]
                 bctype[families[i][2][1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
@@ -290,7 +292,8 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
+                # tags are unique in one dimension only
+                fam[int(families[i][0]), int(families[i][1])] = families[i][2][1:-1]
                 bctype[families[i][2][1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
-- 
2.43.0


From d9b9d3e8ff02c9956a4c61e8118cdf5b1adfda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 33/79] fix: names of GMSH physical groups may have spaces

---
 cfdtools/gmsh/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 0e036d4..9497a27 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -367,7 +367,11 @@ class reader(api._files):
         log.info(f"Reading file {filename!r}...")
         with open(filename) as fid:
             for l in fid:
-                msh.append(l.split())
+                if '"' in l:  # a name, may have spaces
+                    numbers, name, _ = l.split('"', 2)
+                    msh.append(numbers.split() + [f'"{name}"'])
+                else:
+                    msh.append(l.split())
         log.info(" done")
 
         # Find version of the GMSH used
-- 
2.43.0


From 99b28c28ca4df08f0a07a4e353f69522b9cba3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 34/79] fix: a GMSH entity may belong to several physical
 groups

---
 cfdtools/gmsh/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 9497a27..321fc75 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -96,8 +96,9 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
-                    bnd_fam = elt[3]
+                    # elements are gathered by physical group: an entity may belong to several ones
+                    bnd_fam = elt[3] if ntag > 0 else 0
+                    bnd_tag = bnd_fam
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
                     # if elt_type in connect_bc[bnd_tag].keys():
-- 
2.43.0


From bb8d2e310f167a98ae104c09973cd5314291f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 35/79] fix: GMSH 4 entities are identified by dimension and
 tag, with any number of physical groups

---
 cfdtools/gmsh/reader.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 321fc75..e9e6527 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -302,18 +302,18 @@ class reader(api._files):
             fam = None
             bctype = None
 
-        # To find the entity number used for concatenation of the mesh.
-        # The returned values corresponds to the physical group
-        def find_ent(j):
+        # Find the physical groups of each entity, identified by its dimension and tag
+        physicals = {}
+        if ["$Entities"] in msh:
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            row = 1
+            for dim in range(4):
+                iphys = 4 if dim == 0 else 7  # after the tag and the coordinates or the bounding box
+                for _ in range(int(entities[0][dim])):
+                    ent = entities[row]
+                    nphys = int(ent[iphys])
+                    physicals[dim, int(ent[0])] = [int(p) for p in ent[iphys + 1 : iphys + 1 + nphys]]
+                    row += 1
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -345,19 +345,23 @@ class reader(api._files):
         neltypes = int(elements[0][0])
         # entityblock: dimEntity EntityIndex ElemType numElements
         # elements: ElementIndex NodesIndex
+        # highest dimension of the entities (blocks are: header, elements)
+        maxdim = 0
+        for i in range(0, neltypes):
+            maxdim = max(maxdim, int(elements[count][0]))
+            count += int(elements[count][3]) + 1
+        count = 1
         for i in range(0, neltypes):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = physicals.get((int(elements[count][0]), d)) or [0]  # Physical groups
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
-                elt1 = [int(k) for k in elements[j]]
-                elt1.insert(1, a)
-                elt1.insert(2, b)
-                elt1.insert(3, c)
-                elt1.insert(4, d)
-                elts.append(elt1)
+                elt = [int(k) for k in elements[j]]
+                # as in version 2, an element is repeated for each physical group (but not a cell)
+                for phys in c if int(elements[count][0]) < maxdim else c[:1]:
+                    elts.append([elt[0], a, b, phys, d, *elt[1:]])
             count += nxtrange + 1
 
         return fam, bctype, x, y, z, elts
-- 
2.43.0


From 58594b1e57e4ac9b0c89e83f588ac925589b43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 36/79] fix: read the last block of nodes of a GMSH 4 file when
 it has one node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e9e6527..7f4559c 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -325,7 +325,7 @@ class reader(api._files):
         x = [None] * (nnodes)
         y = [None] * (nnodes)
         z = [None] * (nnodes)
-        while nodes < nnodes:
+        while nodes <= nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
                 pos = int(coords[i][0]) - 1
-- 
2.43.0


From 67545ab70e489d45a74c906afaf1529f3ed6c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 37/79] fix: GMSH node tags may be in any order and have gaps

---
 cfdtools/gmsh/reader.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 7f4559c..2b187fb 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -43,13 +43,23 @@ class reader(api._files):
 
         # Read file.
         filename = self.filename
-        fam, bctype, x, y, z, elts = self.__read_sections(filename)
+        fam, bctype, tags, x, y, z, elts = self.__read_sections(filename)
 
         # fam: dict with index: family name
         # bctype: dict with name: type
         # elts: list of list[index, element type, x, x, x, nodes index ]
         log.info("Analyze...")
 
+        # nodes are numbered in the order of their tags, which may have gaps
+        order = np.argsort(tags)
+        tags = np.array(tags)[order]
+        x, y, z = (np.array(c)[order] for c in (x, y, z))
+
+        def node_index(node_tags):
+            if not np.isin(node_tags, tags).all():
+                api.error_stop("an element has an unknown node")
+            return np.searchsorted(tags, node_tags)
+
         # Check for 3D
         self._maxdim = np.amax([_elem.dim_elem[gmshtype_elem[e[1]]] for e in elts])
         # Define list of elements
@@ -116,11 +126,11 @@ class reader(api._files):
         # Reindex connectivities
         # Element-to-vertex
         for elt_type in connectivity.keys():
-            connectivity[elt_type] = np.array(connectivity[elt_type]) - 1
+            connectivity[elt_type] = node_index(np.array(connectivity[elt_type]))
         # Boundary patches element-to-vertex
         for bnd_tag in connect_bc.keys():
             for elt_type in connect_bc[bnd_tag].keys():
-                connect_bc[bnd_tag][elt_type] = np.array(connect_bc[bnd_tag][elt_type]) - 1
+                connect_bc[bnd_tag][elt_type] = node_index(np.array(connect_bc[bnd_tag][elt_type]))
 
         # Fill the dictionary of boundary conditions
         self._famm = []
@@ -265,6 +275,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
+        tags = [int(coords[i][0]) for i in range(1, nnodes + 1)]
         x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
         y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
         z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
@@ -277,7 +288,7 @@ class reader(api._files):
         for i in range(1, nelems + 1):
             elts.append([int(j) for j in elements[i]])
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, tags, x, y, z, elts
 
     def __read_sections_V4(self, msh):
         # ------------------------------------------
@@ -322,16 +333,14 @@ class reader(api._files):
         nodes = 1
         count = 1
         counter = 1
-        x = [None] * (nnodes)
-        y = [None] * (nnodes)
-        z = [None] * (nnodes)
+        tags, x, y, z = [], [], [], []
         while nodes <= nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
-                pos = int(coords[i][0]) - 1
-                x[pos] = float(coords[i + cnt][0])
-                y[pos] = float(coords[i + cnt][1])
-                z[pos] = float(coords[i + cnt][2])
+                tags.append(int(coords[i][0]))
+                x.append(float(coords[i + cnt][0]))
+                y.append(float(coords[i + cnt][1]))
+                z.append(float(coords[i + cnt][2]))
             nodes += cnt
             counter = counter + 2 * cnt + 1
 
@@ -364,7 +373,7 @@ class reader(api._files):
                     elts.append([elt[0], a, b, phys, d, *elt[1:]])
             count += nxtrange + 1
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, tags, x, y, z, elts
 
     def __read_sections(self, filename):
         # Read the entire mesh.
-- 
2.43.0


From 98b4daf8f8cd908b69fefe5e01f8760d4e49cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 38/79] fix: the number of nodes of a GMSH 4 file is not its
 highest node tag

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 2b187fb..407d220 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -329,7 +329,7 @@ class reader(api._files):
         # Find the coordinates.
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
-        nnodes = int(coords[0][3])
+        nnodes = int(coords[0][1])  # followed by the lowest and highest tags
         nodes = 1
         count = 1
         counter = 1
-- 
2.43.0


From 31102a3f450934b7a764c3ca8d2f569133dc2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 39/79] fix: cfdinfo accepts CGNS files

---
 cfdtools/cgns/cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..bb0397a 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -146,8 +146,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
-- 
2.43.0


From 544c667976aeea70795fcd5b751ef644a3449ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 40/79] fix: cells of a CGNS zone are numbered from 0 wherever
 their sections are

---
 cfdtools/cgns/cgns.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index bb0397a..90b868c 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -83,8 +83,19 @@ class cgnszone:
                 cellconn.add_elems(etype, econ, index)
         return cellconn
 
+    def cell_numbers(self):
+        """number of the cell (from 0) of each element (from 0) which is a cell"""
+        return {elem: cell for cell, elem in enumerate(sorted(self.elemcon(self._geodim).all_index()))}
+
     def export_cellcon(self):
-        return self.elemcon(self._geodim)
+        # cells are numbered from 0, whatever the place of their sections among the elements
+        cellnumber = self.cell_numbers()
+        cellcon = _conn.elem_connectivity()
+        for etype, e2n in self.elemcon(self._geodim).items():
+            index = _conn.indexlist(ilist=[cellnumber[i] for i in e2n['index'].list()])
+            index.compress()
+            cellcon.add_elems(etype, e2n['elem2node'], index)
+        return cellcon
 
     # @memoize
     @cache
@@ -120,7 +131,7 @@ class cgnszone:
             if len(nodelist) == self.nnode:
                 boco.type = 'internal'
         elif gridloc == "CellCenter":
-            nodelist = indexlist  # cells indeed
+            nodelist = list(map(self.cell_numbers().get, indexlist))  # cells indeed
             boco.geodim = 'cell'
         else:
             error_stop(f'unknown gridlocation {gridloc}')
-- 
2.43.0


From 27a0af39b12705247101613c4a4b79a9c5bdfb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 41/79] fix: a CGNS list of as many faces as cells is a list of
 faces

---
 cfdtools/cgns/cgns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 90b868c..6f17a99 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -118,9 +118,11 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            cellnumber = self.cell_numbers()
+            if all(i in cellnumber for i in indexlist):
                 gridloc = "CellCenter"
-                boco.type = 'internal'
+                if len(indexlist) == self.ncell:
+                    boco.type = 'internal'
         else:
             error_stop(f"Unknown indexing of BC mark: {name}")
         # convert to node marks
-- 
2.43.0


From 9543a7f16d99611acbae36699340ae1e8aa4bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 42/79] fix: boundary conditions of CGNS files may be given by
 ranges

---
 cfdtools/cgns/cgns.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 6f17a99..15b1adf 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -115,8 +115,16 @@ class cgnszone:
         if "PointList" in BC.keys():
             indexlist = (BC["PointList/ data"][:] - 1).ravel().tolist()
             gridloc = cg_gridlocation(BC)
-        elif "ElementList" in BC.keys():  # not in CGNS norm
-            indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
+        elif "PointRange" in BC.keys():
+            first, last = BC["PointRange/ data"][:].ravel().tolist()
+            indexlist = list(range(first - 1, last))
+            gridloc = cg_gridlocation(BC)
+        elif "ElementList" in BC.keys() or "ElementRange" in BC.keys():  # not in CGNS norm
+            if "ElementList" in BC.keys():
+                indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
+            else:
+                first, last = BC["ElementRange/ data"][:].ravel().tolist()
+                indexlist = list(range(first - 1, last))
             gridloc = "FaceCenter"
             cellnumber = self.cell_numbers()
             if all(i in cellnumber for i in indexlist):
-- 
2.43.0


From b1ba54d4d271b5f91a22438d7b9f451880e4a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 43/79] fix: read CGNS zones of any base, with the dimension of
 their base

---
 cfdtools/cgns/cgns.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 15b1adf..199ebd8 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -184,17 +184,18 @@ class cgnsMesh:
         self._file = cgnsfile(self._filename)
         # get BASE list
         self._bases = self._file.list_bases()
+        self._zones = {}
         for base in self._bases:
             # print('base', self._file._h5file[base].name, self._file._h5file[base][" data"][:])
-            self._zones = dict_cgnstype(self._file._h5file[base], b'Zone_t')
-        # geo dimension from base
-        self._geodim = self._file._h5file[self._bases[0]][" data"][0]
+            self._zones.update(dict_cgnstype(self._file._h5file[base], b'Zone_t'))
         if zone is None:
             assert len(self._zones) == 1, "Multiple zones found, must specify which zone to export"
             name = list(self._zones.keys())[0]
         else:
             name = zone
         self._zonename = name
+        # geo dimension from base
+        self._geodim = self._zones[name].parent[" data"][0]
         self._zone = cgnszone(self._zones[name], self._geodim)
         self._ncell = self._zone.ncell
 
-- 
2.43.0


From af937483797d3e848a345b270ba569438bd9428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 44/79] fix: CGNS boundary conditions of the same family are
 one mark

---
 cfdtools/cgns/cgns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 199ebd8..6a7b67e 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -228,6 +228,10 @@ class cgnsMesh:
                 log.info(f"  filter internal mark {boco.name}")
             else:
                 log.info(f"  add boco {boco}")
+                if boco.name in meshdata._bocos and boco.nodebased():
+                    # conditions of the same family are one mark
+                    former = meshdata._bocos[boco.name].index.list()
+                    boco.index = _conn.indexlist(ilist=sorted(set(former) | set(boco.index.list())))
                 meshdata.add_boco(boco)
         # meshdata.check()
         # meshdata.printinfo()
-- 
2.43.0


From a3ce7e2394cc4ae738cb6a7d23191057dfff75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 45/79] fix: read tetrahedra, pyramids and prisms of CGNS files

---
 cfdtools/cgns/cgns.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 6a7b67e..58a7e1a 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -18,7 +18,16 @@ import cfdtools.meshbase._elements as _elem
 log = logging.getLogger(__name__)
 
 cgtype = {}
-ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 17: 'hexa8'}
+ele_cgns2local = {
+    2: 'node1',
+    3: 'bar2',
+    5: 'tri3',
+    7: 'quad4',
+    10: 'tetra4',
+    12: 'pyra5',
+    14: 'prism6',
+    17: 'hexa8',
+}
 
 
 def cgnstype(obj):
-- 
2.43.0


From 5a8c6b5c5908140ba7c6fce92ab11065e189c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 46/79] fix: CGNS conditions on cells of the same family are
 one mark

---
 cfdtools/cgns/cgns.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 58a7e1a..69f0ae9 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -237,10 +237,11 @@ class cgnsMesh:
                 log.info(f"  filter internal mark {boco.name}")
             else:
                 log.info(f"  add boco {boco}")
-                if boco.name in meshdata._bocos and boco.nodebased():
+                former = meshdata._bocos.get(boco.name, None)
+                if former is not None and former.geodim == boco.geodim:
                     # conditions of the same family are one mark
-                    former = meshdata._bocos[boco.name].index.list()
-                    boco.index = _conn.indexlist(ilist=sorted(set(former) | set(boco.index.list())))
+                    union = set(former.index.list()) | set(boco.index.list())
+                    boco.index = _conn.indexlist(ilist=sorted(union))
                 meshdata.add_boco(boco)
         # meshdata.check()
         # meshdata.printinfo()
-- 
2.43.0


From be13876aa34a3ae1b763848cdf9f522b6e4ca3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 47/79] fix: CGNS conditions and connectivities may have the
 same name

---
 cfdtools/cgns/cgns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 69f0ae9..54883d9 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -61,8 +61,9 @@ class cgnszone:
         self._zonebc.update(dict_cgnstype(zone, b"ZoneGridConnectivity_t"))
         self._BCs = {}
         for zbc in self._zonebc.values():
-            self._BCs.update(dict_cgnstype(zbc, b'BC_t'))
-            self._BCs.update(dict_cgnstype(zbc, b'GridConnectivity_t'))
+            for bctype in (b'BC_t', b'GridConnectivity_t'):
+                # same names are allowed in different groups
+                self._BCs.update({bc.name: bc for bc in dict_cgnstype(zbc, bctype).values()})
 
     @property
     def nnode(self):
-- 
2.43.0


From 6861e7026838e17cb32b526b3dd71bcea609b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 48/79] fix: a timer can be stopped for 0 element

---
 cfdtools/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/api.py b/cfdtools/api.py
index 165a0f2..3f8fb2b 100644
--- a/cfdtools/api.py
+++ b/cfdtools/api.py
@@ -155,7 +155,7 @@ class Timer:  # from https://realpython.com/python-timer/
         if nelem is not None:
             self._nelem = nelem
         self.pause()
-        normalized_time_ms = 0.0 if self._nelem is None else 1e6 * self._elapsed / self._nelem
+        normalized_time_ms = 1e6 * self._elapsed / self._nelem if self._nelem else 0.0
 
         # There was a print, line is restarted
         self._ncol = 0
-- 
2.43.0


From 509959ea796a5fdd2edec8194886edda90d7159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 49/79] fix: nodes of a data set may be arrays

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6e24f09..337067a 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
-- 
2.43.0


From fb40a52e7777a5838085e763462c284c0c925f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 50/79] fix: data may be at time 0, and their dict is not
 changed

---
 cfdtools/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 337067a..6bf611e 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -178,8 +178,8 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
-            datalist['time'] = time
+        if time is not None:
+            datalist = {**datalist, 'time': time}  # the argument is not changed
         self._datalist.append(datalist)
 
     def dataSet(self, datafilter=None):
-- 
2.43.0


From 58b2255d787bef7c4b435df6117e4909ef87c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 51/79] fix: the list of names of a spectrum is not changed and
 may be without time

---
 cfdtools/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6bf611e..40edf8a 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,16 +127,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         for name in datalist:
             newdataset.add_data(name, np.abs(fftm.fft(self[name])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From 6e650e20817743894e721275786e37657a3f956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 52/79] fix: a spectrum is that of the selected samples

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 40edf8a..1948450 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -129,7 +129,7 @@ class DataSet(DataSetBase):
         newdataset.add_data('freq', f)
         datalist = [name for name in (datafilter or self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From 89e5b75bd99d3758d8b7d2eabfbca0327abfb342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 53/79] fix: a spectrogram has as many times as windows,
 whatever the number of samples

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 1948450..8efd84b 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -143,8 +143,8 @@ class DataSet(DataSetBase):
         hwin = int(nwind / 2)
         f = fftm.fftfreq(nwind, dtavg)
         newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
-        newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
+        nit = (ntot - 1) // hwin - 1  # windows of 2*hwin+1 samples, every hwin samples
+        newdataset.add_data('time', (self['time'][hwin::hwin])[:nit])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
             # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)
-- 
2.43.0


From 5ad65ff304c02790d4b230ae0931ac201e5944c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 54/79] fix: colormaps of current matplotlib versions

---
 cfdtools/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..9c8ad4f 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -1,10 +1,11 @@
 # plot.py
 import matplotlib
+import matplotlib.pyplot as plt
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = plt.get_cmap(cmapStr, nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(colormap.colors)
-- 
2.43.0


From 3839934dfd251ca4e3ceff4ba19745b7e5242aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 55/79] fix: probe maps are those of the requested variable,
 not of its first letter

---
 cfdtools/probes/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..d6cce02 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
-- 
2.43.0


From c4e7a26824a06ddb618ad1e0a1cd2ec22d63e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 56/79] fix: number of faces of a mesh once faces are removed

---
 cfdtools/meshbase/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index d3a5703..dfb5624 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -177,6 +177,7 @@ class Mesh:
                 for key, item in self._faces[facetype].items():
                     del item
                 self._faces.pop(facetype)
+        self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())
 
     def export_mixedfaces(self):
         mixedfaces_con = _conn.elem_connectivity()
-- 
2.43.0


From 2e73860eeee44feea1c4aa40ea05db4b6d29ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 57/79] fix: checking a mesh does not change it

---
 cfdtools/meshbase/_mesh.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index dfb5624..4775398 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -226,8 +226,8 @@ class Mesh:
     def list_boco_index(self):
         return list(itertools.chain(*[boco.index.list() for boco in self._bocos.values()]))
 
-    def make_unmarked_BC(self, name="unmarked_faces"):
-        """check all boundaring faces are marked and create a specific boco if not"""
+    def list_unmarked_index(self):
+        """list of boundary faces which are not marked"""
         if 'boundary' in self._faces.keys():
             # number of (boundary) faces in face connectivity
             # nbdface = self._faces['boundary']['face2node'].nelem
@@ -235,20 +235,25 @@ class Mesh:
                 assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
             list_marked = self.list_boco_index()
             list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
-            if list_missing:
-                while name in self._bocos.keys():  # never replace an existing mark
-                    name += "_"
-                boco = submeshmark(name)
-                boco.geodim = 'bdface'
-                boco.type = 'boundary'
-                boco.properties['periodic_transform'] = None
-                boco.index = _conn.indexlist(ilist=list_missing)
-                self.add_boco(boco)
         else:
             list_missing = []
             log.warning("can only reindex faces according to boco if separated in 'boundary' list")
         return list_missing
 
+    def make_unmarked_BC(self, name="unmarked_faces"):
+        """check all boundaring faces are marked and create a specific boco if not"""
+        list_missing = self.list_unmarked_index()
+        if list_missing:
+            while name in self._bocos.keys():  # never replace an existing mark
+                name += "_"
+            boco = submeshmark(name)
+            boco.geodim = 'bdface'
+            boco.type = 'boundary'
+            boco.properties['periodic_transform'] = None
+            boco.index = _conn.indexlist(ilist=list_missing)
+            self.add_boco(boco)
+        return list_missing
+
     def seekmark(self, name: str) -> submeshmark:  # What is this method ??
         """look for diffent marks set to find mark name"""
         # only _bocos for now
@@ -429,7 +434,7 @@ class Mesh:
         # log.info('ckeck: at least cell/node or face/node face/cell connectivity')
         # assert(not self._cell2node or (not self._face2node and not self._face2cell))
         # assert self._check_cell2node() # not compulsory
-        assert not self.make_unmarked_BC()
+        assert not self.list_unmarked_index()
         return True
 
     def morph(self, fmorph):
-- 
2.43.0


From 4f59db7c248488ae49afb44bd19050b78bd7d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 58/79] fix: a mesh with integer coordinates can be extruded

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 4775398..fd827f3 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -276,7 +276,7 @@ class Mesh:
         # SHOULD CHECK DIRECTION AND MESH ORIENTATION
         # extrude nodes
         ntotnode = self.nnode
-        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))
+        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1)).astype(float)
         for i, s in enumerate(extrude_range):
             newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)
         newmesh.set_nodescoord_nd(newcoords)
-- 
2.43.0


From 97768aeb1836f85a4230b99b758947d1e49dcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 59/79] fix: VTK files whose cells are not those of the first
 file are refused

---
 cfdtools/vtk/_vtkList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index ad962b0..4693949 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -84,6 +84,8 @@ class vtkList:
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
             ctr = vtk.cell_centers().points
+            if ctr.shape != ctrRef.shape:
+                raise ValueError(f"  number of cells of {name} is not the one of the first file")
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
             if d > tol:  # should be sized by domain size
@@ -103,6 +105,8 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if np.unique(index).size != index.size:
+                    raise ValueError("  several cells at the same position")
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From c495ee2fe021c6c4a3e3a4010d93df0307469798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 60/79] fix: order check of VTK files of different sizes

---
 cfdtools/vtk/_vtkList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 4693949..6499577 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -43,7 +43,8 @@ class vtkList:
         ref = mappos[pos](pv.read(self._list[0]))
         for name in self._list:
             mesh = pv.read(name)
-            d = np.max(maths.distance(ref, mappos[pos](mesh)))
+            points = mappos[pos](mesh)
+            d = np.max(maths.distance(ref, points)) if points.shape == ref.shape else np.inf
             if d > tol:
                 count += 1
                 if self._verbose:
-- 
2.43.0


From 8600edbfb4ce76144300cb2d361aee510a2f3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 61/79] fix: averaging refuses planes with a cell twice and
 another missing

---
 cfdtools/vtk/_vtk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..dd5fe9b 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -324,6 +324,8 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != index.size:
+                        raise ValueError("  several cells of a plane at the same position")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From a979e7b933dec7e3e0417a8c5ffd3b6099a01f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 62/79] fix: volumes of the cells asked twice

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index dd5fe9b..ab9aa04 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 62d9cc4d6a855507eae3f498cd3962567c764410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 63/79] fix: XMF file in another folder refers to its HDF5 file

---
 cfdtools/vtk/_vtkList.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 6499577..d4e46c6 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -150,9 +150,11 @@ class vtkList:
             return lines
 
         # get the XDMF content for the mesh geometry and topology
-        geometry_content = vtkmesh.xdmf_content(filepath)
+        # references are relative to the folder of the XMF file, which is the one of the HDF5 file
+        hdfname = os.path.basename(filepath)
+        geometry_content = vtkmesh.xdmf_content(hdfname)
         # get the XDMF content for the time data series
-        geom_dat_content = data.xdmf_content(filepath, geometry_content)
+        geom_dat_content = data.xdmf_content(hdfname, geometry_content)
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-- 
2.43.0


From 21fb34d60ad39132c0b3fabb3cdd1cbeedb2391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 64/79] fix: dumped cell data follow the cells of the dumped
 tables

---
 cfdtools/data.py     | 14 +++++++++++---
 cfdtools/vtk/_vtk.py |  6 ++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 8efd84b..b927192 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -189,11 +189,12 @@ class DataSetList(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         return newdataset
 
-    def _dumphdfgroup(self, hgroup: hdf5.Group, **options):
+    def _dumphdfgroup(self, hgroup: hdf5.Group, order=None, **options):
         """dump all data to an hdf group, should be used as an internal function of cfdtools, not the user
 
         Args:
             hgroup (hdf5.Group): _description_
+            order (ndarray, optional): order of the values to dump. Defaults to None (unchanged).
         """
         for i, datadict in enumerate(self._datalist):
             datagroup = hgroup.create_group(f"i{i:06}")
@@ -201,7 +202,7 @@ class DataSetList(DataSetBase):
                 if vname in self._property_names:
                     datagroup.attrs[vname] = var
                 else:
-                    datagroup.create_dataset(vname, data=var, **options)
+                    datagroup.create_dataset(vname, data=var if order is None else np.asarray(var)[order], **options)
 
     def xdmf_content(self, filename, geometry_content):
         """Create the XDMF content associated to the data set.
@@ -251,8 +252,15 @@ class DataSetList(DataSetBase):
         else:
             api.error_stop("not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
         file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
+        # cell data follow the cells of the tables, taken in the (alphabetical) order of an hdf group
+        order = None
+        if self.Xrep == 'cellaverage':
+            tables = sorted(self._geoprop['mesh']._cell2node.items())
+            order = np.concatenate([econ['index'].list() for _, econ in tables])
+            if np.all(order == np.arange(order.size)):
+                order = None
         #
         hdata = file._h5file.create_group("datalist")
-        self._dumphdfgroup(hdata, **options)
+        self._dumphdfgroup(hdata, order, **options)
         file.close()
         return file.filename
diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index ab9aa04..8914f8d 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -97,7 +97,8 @@ class vtkMesh:
         """
         cellnode = _conn.elem_connectivity()
         for itype, cellco in self._grid.cells_dict.items():
-            cellnode.add_elems(ele_vtktype[itype], cellco)
+            index = np.flatnonzero(self._grid.celltypes == itype)
+            cellnode.add_elems(ele_vtktype[itype], cellco, _conn.indexlist(ilist=index.tolist()))
         mesh = cfdmesh.Mesh(ncell=self.ncell, nnode=self.nnode)
         mesh.set_cell2node(cellnode)
         mesh.set_nodescoord_nd(self._grid.points)
@@ -157,7 +158,8 @@ class vtkMesh:
         lines += ["</DataItem>"]
         lines += ["</Geometry>"]
 
-        for itype, cellco in self._grid.cells_dict.items():
+        # same order as in an hdf group
+        for itype, cellco in sorted(self._grid.cells_dict.items(), key=lambda item: ele_vtktype[item[0]]):
             lines += [
                 f'<Topology NumberOfElements="{cellco.shape[0]:d}" TopologyType="{PYVISTA2XDMF[itype]}">'
             ]
-- 
2.43.0


From 847aea651b641bf7a7986fdc3715b8706e092749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 65/79] fix: XDMF name of prisms

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 8914f8d..4c0a844 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -36,7 +36,7 @@ if importpyvista:
         CellType.HEXAHEDRON: "Hexahedron",
         CellType.TETRA: "Tetrahedron",
         CellType.PYRAMID: "Pyramid",
-        CellType.WEDGE: "Prism",
+        CellType.WEDGE: "Wedge",
     }
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
-- 
2.43.0


From 9ea219d50f4c41cdbe31341cfc95209d9c994b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 66/79] fix: XMF file of a mesh with several types of cells

---
 cfdtools/vtk/_vtk.py     | 20 ++++++++++++++++++--
 cfdtools/vtk/_vtkList.py |  7 ++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 4c0a844..2884b73 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -38,6 +38,8 @@ if importpyvista:
         CellType.PYRAMID: "Pyramid",
         CellType.WEDGE: "Wedge",
     }
+    # codes of cells in a mixed XDMF topology
+    XDMF_CODE = {'tri3': 4, 'quad4': 5, 'tetra4': 6, 'pyra5': 7, 'prism6': 8, 'hexa8': 9}
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
 
@@ -158,8 +160,15 @@ class vtkMesh:
         lines += ["</DataItem>"]
         lines += ["</Geometry>"]
 
-        # same order as in an hdf group
-        for itype, cellco in sorted(self._grid.cells_dict.items(), key=lambda item: ele_vtktype[item[0]]):
+        if len(self._grid.cells_dict) > 1:  # XDMF readers only use one topology
+            lines += [f'<Topology NumberOfElements="{self.ncell:d}" TopologyType="Mixed">']
+            lines += [f'<DataItem Dimensions="{self.mixed_topology().size}" NumberType="Int" Precision="8" Format="HDF">']
+            lines += [f"{filename}:/mesh/mixed_topology"]
+            lines += ["</DataItem>"]
+            lines += ["</Topology>"]
+            return lines
+
+        for itype, cellco in self._grid.cells_dict.items():
             lines += [
                 f'<Topology NumberOfElements="{cellco.shape[0]:d}" TopologyType="{PYVISTA2XDMF[itype]}">'
             ]
@@ -170,6 +179,13 @@ class vtkMesh:
 
         return lines
 
+    def mixed_topology(self):
+        """connectivity of all cells (code, nodes) as expected by XDMF, in the (alphabetical) order of an hdf group"""
+        tables = sorted((ele_vtktype[itype], cellco) for itype, cellco in self._grid.cells_dict.items())
+        return np.concatenate(
+            [np.insert(cellco, 0, XDMF_CODE[etype], axis=1).ravel() for etype, cellco in tables]
+        ).astype(np.int64)
+
     def volumes(self):
         if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index d4e46c6..98bbe70 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -16,7 +16,7 @@ import cfdtools.utils.maths as maths
 from cfdtools.vtk import vtkMesh
 from cfdtools.data import DataSetList
 
-# import cfdtools.hdf5 as hdf5
+import cfdtools.hdf5 as hdf5
 
 log = logging.getLogger(__name__)
 
@@ -150,6 +150,11 @@ class vtkList:
             return lines
 
         # get the XDMF content for the mesh geometry and topology
+        if len(vtkmesh.pyvista_grid.cells_dict) > 1:
+            hfile = hdf5.h5File(filepath)
+            hfile.open(mode="r+")
+            hfile["/mesh"].create_dataset("mixed_topology", data=vtkmesh.mixed_topology())
+            hfile.close()
         # references are relative to the folder of the XMF file, which is the one of the HDF5 file
         hdfname = os.path.basename(filepath)
         geometry_content = vtkmesh.xdmf_content(hdfname)
-- 
2.43.0


From 4d5a6d37c460eef0a6dda90dad4e23cd175c4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 67/79] fix: field names with XML special characters in XMF
 files

---
 cfdtools/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index b927192..6a17bb2 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,4 +1,5 @@
 import logging
+from xml.sax.saxutils import escape
 
 import numpy as np
 import numpy.fft as fftm
@@ -231,9 +232,10 @@ class DataSetList(DataSetBase):
                     raise ValueError(f"Type of data cannot be deduced with shape dimension {len(var.shape)}")
                 dim = " ".join(str(j) for j in var.shape)
 
-                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{vname}">']
+                xmlname = escape(vname, {'"': "&quot;"})
+                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{xmlname}">']
                 lines += [f'<DataItem Dimensions="{dim}" Format="HDF">']
-                lines += [f"{filename}:/datalist/i{i:06}/{vname}"]
+                lines += [f"{filename}:/datalist/i{i:06}/{xmlname}"]
                 lines += ["</DataItem>"]
                 lines += ["</Attribute>"]
             lines += ["</Grid>"]
-- 
2.43.0


From f10732ca106345e9e5ea48e6a038eb958c49ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 68/79] fix: read an IC3 V4 solution without conservative
 fields

---
 cfdtools/ic3/readerV4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index caeab66..eac72d2 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -300,7 +300,8 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        # a solution may be written without conservative fields
+        read_vars(fid, [var for var in ['rho', 'rhou', 'rhoe'] if var in fid])
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From 2cbb010e587f038f063ba3db51dcf9b52b31674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:49 +0000
Subject: [PATCH 69/79] fix: empty boundary marks in IC3 V4 files

---
 cfdtools/ic3/writerV4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index d580235..48a35a8 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -168,7 +168,9 @@ class writer(writerV2.writer):
         min_range.append(ifmin)
         max_range.append(ifmax)
 
-        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))
+        # an empty range must come before the one which starts at the same face
+        zones = sorted(zip(min_range, max_range, labels, kinds), key=lambda x: x[:2])
+        min_range, max_range, labels, kinds = zip(*zones)
         min_range = list(min_range)
         min_range.append(ifmax)
 
-- 
2.43.0


From 7cb81d20f43baa15e1b476be62076af75495566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 70/79] fix: reading a GMSH mesh does not change the node
 ordering of others

---
 cfdtools/gmsh/reader.py            | 5 +----
 cfdtools/meshbase/_connectivity.py | 7 +++++--
 cfdtools/meshbase/_elements.py     | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 407d220..3d0514d 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -38,9 +38,6 @@ class reader(api._files):
         if not self.exists():
             api.error_stop(f"File not found: {self.filename!r}")
 
-        # Set the node ordering convention
-        _elem.elem2faces = _elem.gmsh_elem2faces
-
         # Read file.
         filename = self.filename
         fam, bctype, tags, x, y, z, elts = self.__read_sections(filename)
@@ -181,7 +178,7 @@ class reader(api._files):
         meshdata = _mesh.Mesh(nnode=len(self._coords[0]))
         meshdata.set_nodescoord_xyz(*self._coords)
         # meshdata.set_face2node(self.mesh['connectivity']['noofa'])
-        cellconn = _conn.elem_connectivity()
+        cellconn = _conn.elem_connectivity(elem2faces=_elem.gmsh_elem2faces)
         # extract cell connectivity only
         for etype, econn in self._cellconnectivity.items():
             if _elem.dim_elem[etype] == self._maxdim:
diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 5986721..13a70f3 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -174,9 +174,11 @@ class compressed_listofindex:
 
 
 class elem_connectivity:
-    def __init__(self):
+    def __init__(self, elem2faces=None):
         self._nelem = 0
         self._elem2node = OrderedDict()
+        # faces of elements according to the node ordering convention, default is that of the package
+        self._elem2faces = elem2faces
 
     def add_elems(self, etype: str, elem2node: np.ndarray, index: indexlist = None):
         dim = elem2node.shape[0]
@@ -321,6 +323,7 @@ class elem_connectivity:
             Returns:
                 _type_: dict of face type
             """
+            elem2faces = self._elem2faces or _elem.elem2faces
             faces_neighbour = defaultdict(list)
             for (
                 elemtype,
@@ -342,7 +345,7 @@ class elem_connectivity:
                 #             [ (tuple(elemsarray[ielem, face]), index[ielem]) for ielem in range(elemsarray.shape[0]) ] )
                 # V2 (-30%)
                 # NODE ORDER of face IS REVERSED
-                for ftype, face_of_elem in _elem.elem2faces[elemtype].items():
+                for ftype, face_of_elem in elem2faces[elemtype].items():
                     for eface in face_of_elem:
                         reindex_f = elemsarray[:, list(reversed(eface))].tolist()
                         faces_neighbour[ftype].extend(
diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 973bfda..41a938f 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -225,5 +225,5 @@ gmsh_elem2faces = {
     'tetra4': group_faces_by_type(gmsh_connectivity_tetra4),
 }
 
-# either CGNS or GMSH to be set in the reader. Default is CGNS.
+# default convention is CGNS, a connectivity may have another one (GMSH is given by the reader)
 elem2faces = cgns_elem2faces
-- 
2.43.0


From cf6318709f420ddd5dc37fd3463ab2807dc76368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 71/79] fix: meshes exported by an IC3 reader do not share
 marks and data

---
 cfdtools/ic3/readerV4.py      | 9 +++++----
 cfdtools/ic3/reader_legacy.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index eac72d2..a684a0b 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -9,6 +9,7 @@ Todo:
 
 """
 # Standard library imports
+import copy
 import logging
 from pathlib import Path
 
@@ -131,10 +132,10 @@ class reader:
         face2node.importfrom_compressedindex(self.mesh['connectivity']['noofa'])
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
-            meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
+            meshdata.add_boco(copy.deepcopy(boco))
+        meshdata.set_celldata(copy.deepcopy(self.celldata))
+        meshdata.set_nodedata(copy.deepcopy(self.nodedata))
+        meshdata.set_facedata(copy.deepcopy(self.facedata))
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
         if self.mesh.get('partition') is not None:
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 61cca9d..8a3d497 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -1,5 +1,6 @@
 # coding: utf8
 
+import copy
 import logging
 import numpy as np
 import sys
@@ -151,10 +152,10 @@ class reader(binreader):
         face2node.importfrom_compressedindex(self.mesh['connectivity']['noofa'])
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
-            meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
+            meshdata.add_boco(copy.deepcopy(boco))
+        meshdata.set_celldata(copy.deepcopy(self.celldata))
+        meshdata.set_nodedata(copy.deepcopy(self.nodedata))
+        meshdata.set_facedata(copy.deepcopy(self.facedata))
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
         if 'partition' in self.mesh.keys():
-- 
2.43.0


From f41d9962086bac5bfd9386a6f54e7889aef182e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 72/79] fix: a mesh keeps its own parameters

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index fd827f3..c53d237 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -312,7 +312,7 @@ class Mesh:
         return newmesh
 
     def set_params(self, params):
-        self._params = params
+        self._params = dict(params)  # given parameters are not changed by update_params
 
     def update_params(self, params):
         self._params.update(params)
-- 
2.43.0


From 509494835fed92dcf051666f0c02519603be69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 73/79] fix: a mesh exported by vtkMesh does not share points
 with the grid

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 2884b73..839e33d 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -103,7 +103,7 @@ class vtkMesh:
             cellnode.add_elems(ele_vtktype[itype], cellco, _conn.indexlist(ilist=index.tolist()))
         mesh = cfdmesh.Mesh(ncell=self.ncell, nnode=self.nnode)
         mesh.set_cell2node(cellnode)
-        mesh.set_nodescoord_nd(self._grid.points)
+        mesh.set_nodescoord_nd(np.array(self._grid.points))  # copied, the grid may move
         return mesh
 
     @property
-- 
2.43.0


From 49e407006a01635d7b64cf068d3713d9c93aa59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 74/79] fix: reading an IC3 V4 file again counts its marks once

---
 cfdtools/ic3/readerV4.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index a684a0b..350ea81 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -218,6 +218,7 @@ class reader:
         # The boundary conditions now
         log.info("Parsing boundary conditions...")
         self.mesh['bocos'] = []  # init list of bocos
+        self.mesh["params"]["nboco"] = 0
         if 'Boundaries' in fid:
             offsets = fid['Boundaries']['offsets'][()]
             min_range = offsets[:-1]
-- 
2.43.0


From 4a446be2690216d9728c3fe9ea8dceff62e011ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 75/79] fix: frequencies of a spectrogram are those of the
 samples of its windows

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6a17bb2..0a2a260 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -142,8 +142,8 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
+        newdataset.add_data('freq', f[lowcrop:])
         nit = (ntot - 1) // hwin - 1  # windows of 2*hwin+1 samples, every hwin samples
         newdataset.add_data('time', (self['time'][hwin::hwin])[:nit])
         for name in datalist:
-- 
2.43.0


From 8a9e5f7d082f113838dfeb1d63e3428ce31452ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:27 +0000
Subject: [PATCH 76/79] fix: an axis of a map can be a variable of time

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index d6cce02..7f82702 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
-- 
2.43.0


From d748e22199123a0967f1e490070af8c1de8af9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 77/79] fix: the marks of end planes of an extrusion do not
 replace marks of the same name

---
 cfdtools/meshbase/_mesh.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c53d237..7f68d4a 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -240,13 +240,17 @@ class Mesh:
             log.warning("can only reindex faces according to boco if separated in 'boundary' list")
         return list_missing
 
+    def free_markname(self, name):
+        """name of a new mark, which does not replace an existing mark"""
+        while name in self._bocos.keys():
+            name += "_"
+        return name
+
     def make_unmarked_BC(self, name="unmarked_faces"):
         """check all boundaring faces are marked and create a specific boco if not"""
         list_missing = self.list_unmarked_index()
         if list_missing:
-            while name in self._bocos.keys():  # never replace an existing mark
-                name += "_"
-            boco = submeshmark(name)
+            boco = submeshmark(self.free_markname(name))
             boco.geodim = 'bdface'
             boco.type = 'boundary'
             boco.properties['periodic_transform'] = None
@@ -296,14 +300,14 @@ class Mesh:
             newboco.index = _conn.indexlist(ilist=index.tolist())
             newmesh.add_boco(newboco)
         # create initial 2D domain as boco
-        newboco = submeshmark(name=domain + '0')
+        newboco = submeshmark(newmesh.free_markname(domain + '0'))
         newboco.geodim = 'bdnode'
         newboco.type = 'boundary'
         index = self._cell2node.nodelist()
         newboco.index = _conn.indexlist(ilist=index)
         newmesh.add_boco(newboco)
         # create extruded 2D domain as boco
-        newboco = submeshmark(name=domain + '1')
+        newboco = submeshmark(newmesh.free_markname(domain + '1'))
         newboco.geodim = 'bdnode'
         newboco.type = 'boundary'
         index = (np.array(index) + (nrange - 1) * ntotnode).tolist()
-- 
2.43.0


From 583f778a8eb4806ac0e254928268cc383a6fc7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 78/79] fix: statistics printed for a vector are those of each
 component

---
 cfdtools/ic3/reader_legacy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 8a3d497..86fcfc6 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -49,7 +49,14 @@ def print_stats_vector(name, dnp):
     for component in range(dnp.shape[1]):
         log.info(
             "  %s%s%s:  %+.5e / %+.5e / %+.5e (min/mean/max)."
-            % (name, "-%d" % component, ' ' * (20 - len(name)), dnp.min(), np.mean(dnp), dnp.max())
+            % (
+                name,
+                "-%d" % component,
+                ' ' * (20 - len(name)),
+                dnp[:, component].min(),
+                np.mean(dnp[:, component]),
+                dnp[:, component].max(),
+            )
         )
 
 
-- 
2.43.0


From c3e03786ea291ea6e4366d2a891be3a139bd5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 79/79] fix: an IC3 V4 file read again leaves nothing of the
 former reading

---
 cfdtools/ic3/readerV4.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 350ea81..898b7fa 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -43,6 +43,10 @@ class reader:
             self._solution_filename = Path(solution_filename)
             if not self._solution_filename.exists():
                 raise FileExistsError()
+        self._reset()
+
+    def _reset(self):
+        """Forget what has been read."""
         # Initialize the mesh
         self.mesh = {
             "params": {
@@ -100,6 +104,7 @@ class reader:
     def read_data(self):
         """Read the ic3 restart file in the HDF5 format."""
         log.info("Reader restart IC3 V4")
+        self._reset()  # nothing of a former reading remains
 
         # Open the file for binary reading
         log.debug(f"Opening file {self._mesh_filename!r}")
-- 
2.43.0

