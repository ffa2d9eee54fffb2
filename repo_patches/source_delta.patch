From 274cbc504b7f4c493c00c8989508216868fd95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 01/24] fix: FlowDirections crashed on unstructured grids (ncpl
 is an array there)

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..6d7990c 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,8 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        # position of the padding entry appended to dem, xcenters and ycenters
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From 00026aa35bed9aefbe25a89f30160842cd3be259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 02/24] fix: segment numbering could not be reshaped on
 unstructured grids

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..9c99f93 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -303,9 +303,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From 292bc25eb33478a558ef0d55190aa5fb4810f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 03/24] fix: results depended on which neighbour type the grid
 had cached before

---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..f4253da 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,7 +183,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -283,7 +283,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     while stack:
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 6d7990c..8542aad 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9c99f93..51b09f1 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,7 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(method="queen", reset=True)
         
     @property
     def stream_array(self):
-- 
2.43.0


From c2b4fe3d6aa294379a0216121efc37568ab2af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 04/24] fix: fill_nan_values never returned when a nan cell had
 only nan neighbours

---
 dany/dem_conditioning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index f4253da..04b375c 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -285,8 +285,9 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     stack = list(np.where(np.isnan(filled_dem))[0])
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
+    deferred = 0
 
-    while stack:
+    while stack and deferred < len(stack):
         node = stack.pop()
         nn = neighbors[node]
         elevs = filled_dem[nn]
@@ -302,8 +303,11 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # no elevation nearby yet, retry after the other nan cells
+            stack.insert(0, node)
+            deferred += 1
         else:
             filled_dem[node] = elev
+            deferred = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From b5dd16ef69b591116bea112ad936b756470d14e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 05/24] fix: sorting a long stream network exceeded the
 recursion limit

---
 dany/stream_util.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 51b09f1..a05b4d9 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1431,7 +1431,7 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
+        Function used by topological
         sort to perform sorting
 
         Parameters
@@ -1444,21 +1444,21 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
-
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
-
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        # walk downstream to the first visited segment, then unwind. Walking
+        #  iteratively keeps long streams clear of the recursion limit
+        path = []
+        while not visited[seg]:
+            visited[seg] = True
+            path.append(seg)
+            seg = 0 if seg == 0 else self.topology[seg]
+
+        for seg in reversed(path):
+            if seg == 0:
+                pass
+            elif self.topology[seg] == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From a150c5e8440488f9735d89c181e3e96d46fcc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 06/24] fix: the sink marker -2 was used as a cell number by
 downstream calculations

---
 dany/flow_directions.py | 29 +++++++++++++++++++++++------
 dany/stream_util.py     |  7 ++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 8542aad..cc83547 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -365,6 +365,9 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    # sinks do not drain to another cell
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -383,7 +386,8 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
-            nidp_array[cell] += 1
+            if cell >= 0:
+                nidp_array[cell] += 1
 
         return nidp_array
 
@@ -468,6 +472,9 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    # sink, flow does not leave the cell
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -594,8 +601,8 @@ class FlowDirections:
             visited = []
             current = cellid
             while True:
-                if cellid in visited:
-                    # basin outlet condition 1 circular fdir
+                if cellid in visited or cellid < 0:
+                    # basin outlet condition 1 circular fdir or a sink
                     graph[current] = -1
                     break
                 elif cellid not in cellids or cellid == current:
@@ -626,6 +633,16 @@ class FlowDirections:
             )
         return subbasins
 
+    def _drainage_cells(self):
+        """
+        Method to get the cell each cell drains to. Sinks drain to themselves
+
+        Returns
+        -------
+            np.ndarray of cell numbers
+        """
+        return np.where(self._fdir < 0, np.arange(self._fdir.size), self._fdir)
+
     def _get_shared_vertex(self, iverts0, iverts1, verts):
         """
         Method to get the shared vertex location of a neighboring cell
@@ -652,7 +669,7 @@ class FlowDirections:
         -------
             hru_len : np.ndarray
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._drainage_cells()
         verts = self._modelgrid.verts
         iverts = self._modelgrid.iverts
         hru_len = []
@@ -699,7 +716,7 @@ class FlowDirections:
         slopes : np.ndarray
             slope of the cell's drainage path
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._drainage_cells()
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -725,7 +742,7 @@ class FlowDirections:
             aspect of the cell's drainage path
 
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._drainage_cells()
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
diff --git a/dany/stream_util.py b/dany/stream_util.py
index a05b4d9..b918d8a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -144,7 +144,8 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            # sinks do not drain to another reach
+            rchto = stream_array[flow_to] if flow_to >= 0 else 0
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
@@ -1223,6 +1224,8 @@ class PrmsStreams(StreamBase):
         )
         """
         fdir = self._fdir.copy().ravel()
+        # sinks drain to themselves
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
@@ -1283,6 +1286,8 @@ class PrmsStreams(StreamBase):
 
         """
         fdir = self._fdir.copy().ravel()
+        # sinks drain to themselves
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
-- 
2.43.0


From f67cb10c9a21b62d7ae339ed2ee3c0991538c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 07/24] fix: get_subbasins lost a pour point located in the
 first cell

---
 dany/flow_directions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index cc83547..53f4312 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -617,13 +617,14 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # Topology reserves 0, shift the ids to keep a pour point in cell 0
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            topo.add_connection(cellid + 2, cellid_to + 2)
 
-        topo.add_connection(-1, -1)
+        topo.add_connection(1, 1)
         solution_order = topo.sort()[:-1]
-        solution_idxs = [cellids.index(cellid) for cellid in solution_order]
+        solution_idxs = [cellids.index(topoid - 2) for topoid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
         for ix, point_idx in enumerate(solution_idxs):
-- 
2.43.0


From c4dbcddcdeec59d668836fe18d3216de4fbadcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 08/24] fix: recomputing directions or streams kept results
 derived from the previous ones

---
 dany/flow_directions.py |  1 +
 dany/stream_util.py     | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 53f4312..655abfd 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -413,6 +413,7 @@ class FlowDirections:
 
         """
         self._threshold = burn_threshold
+        self._fdir_r = None
         self._fdir = np.full(self._dem.size - 1, -1)
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
diff --git a/dany/stream_util.py b/dany/stream_util.py
index b918d8a..c0c625d 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -25,7 +25,7 @@ class StreamBase:
         self._facc = facc
         self._shape = shape
         self._stream_array = None
-        self._graph = None
+        self._clear_connectivity()
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -73,6 +73,7 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._clear_connectivity()
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -104,8 +105,18 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._clear_connectivity()
         return self._stream_array
 
+    def _clear_connectivity(self):
+        """
+        Method to discard the connectivity of a superseded stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
+
     def _mf6_stream_connectivity(self, stream_array=None):
         """
         Method to determine MF6 stream connectivity by reach
-- 
2.43.0


From 1aed42357ef7bb65b6b99a53c3229c0eac631783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 09/24] fix: an explicit stream array was ignored once
 connectivity had been stored

---
 dany/stream_util.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c0c625d..788cdec 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -580,6 +580,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
+            stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
@@ -758,9 +759,12 @@ class Sfr2005(StreamBase):
                     "stream connectivity or a binary array of stream cells "
                     "must be provided"
                 )
+            build_graph = self._seg_graph is None
             stream_array = self._stream_array
+        else:
+            build_graph = True
 
-        if self._seg_graph is None:
+        if build_graph:
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -874,9 +878,12 @@ class Sfr2005(StreamBase):
                     "stream connectivity or a binary array of stream cells "
                     "must be provided"
                 )
+            build_graph = self._seg_graph is None
             stream_array = self._stream_array
+        else:
+            build_graph = True
 
-        if self._seg_graph is None:
+        if build_graph:
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -917,10 +924,13 @@ class Sfr2005(StreamBase):
                     "stream connectivity or a binary array of stream cells "
                     "must be provided"
                 )
+            build_graph = self._seg_graph is None
             stream_array = self._stream_array
+        else:
+            build_graph = True
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if build_graph:
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
@@ -1174,9 +1184,12 @@ class PrmsStreams(StreamBase):
 
         """
         if stream_array is None:
+            build_graph = self._graph is None
             stream_array = self.stream_array
+        else:
+            build_graph = True
 
-        if self._graph is None:
+        if build_graph:
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
             stream_array = self.stream_array
@@ -1388,7 +1401,6 @@ class PrmsStreams(StreamBase):
             group_segments=group_segments
         )
         hru_up, hru_down, hru_pct_up, hru_strmseg_down = self.get_cascades(
-            stream_array=self._stream_array,
             basin_boundary=basin_boundary,
             many2many=many2many
         )
-- 
2.43.0


From 8e90c3eabcac781b2fc197ebd878a24a62f21237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 10/24] fix: keyword defaults crashed the Sfr2005 builder
 object

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 788cdec..44404f1 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1026,7 +1026,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From 3e3abcc530ce496d6591500159a8e02efce55ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 11/24] fix: reach_data looked up the downstream segment by
 column number

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 44404f1..f7ed702 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -828,12 +828,12 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
+                iseg = rec[4]
                 if iseg not in self._seg_graph:
                     downreach = 0
                 else:
                     outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                    downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From be8a3fea17c523e6ea10ee17459379196028b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 12/24] fix: builder slopes were all measured to the last reach
 of the network

---
 dany/stream_util.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f7ed702..b81d376 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1053,9 +1053,26 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
+            seg_first_ix = {}
+            for ix, iseg in enumerate(reach_data["iseg"]):
+                seg_first_ix.setdefault(iseg, ix)
+
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
                 rec_dn_ix = rec["outreach"] - 1
+                if rec_dn_ix < 0:
+                    # outreach is not set, flow goes to the next reach in the
+                    #  segment or to the first reach of the outseg
+                    rec_dn_ix = ix + 1
+                    if (
+                        rec_dn_ix == len(reach_data)
+                        or reach_data[rec_dn_ix]["iseg"] != rec["iseg"]
+                    ):
+                        rec_dn_ix = seg_first_ix.get(
+                            outsegs.get(rec["iseg"], 0), len(reach_data)
+                        )
+
                 if rec_dn_ix >= len(reach_data):
                     node_dn = rec["node"]
                 else:
-- 
2.43.0


From f012a6694ad5db5d9c8f19fd9b4c6972837535b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 13/24] fix: many to many cascades pointed out of the basin
 boundary

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b81d376..161b64e 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1365,7 +1365,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From f45b2a98aa06e1744b4bce037a84ae0c650adb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 14/24] fix: irunbnd assigned upstream stream cells to a
 downstream segment

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 161b64e..d8851f2 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -965,7 +965,8 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # other stream cells drain to their own segment
+                upnodes = [i for i in fdir_r[node] if i not in stream_cells]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 2702d33654b7c19278d4fa081e007d47f8e888aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 15/24] fix: arrays handed in or out were shared with the state
 of the object

---
 dany/flow_directions.py | 12 ++++++------
 dany/stream_util.py     |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 655abfd..ba0a0ba 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -72,7 +72,7 @@ class FlowDirections:
         Method to return the area of each cell
 
         """
-        return self._area
+        return self._area.copy()
 
     @property
     def flow_direction_array(self):
@@ -80,7 +80,7 @@ class FlowDirections:
         Method to return a previously calculated flow direction array
 
         """
-        return self._fdir.reshape(self._shape)
+        return self._fdir.copy().reshape(self._shape)
 
     @property
     def flow_accumulation_array(self):
@@ -88,7 +88,7 @@ class FlowDirections:
         Method that returns a previously calculated flow accumulation array
 
         """
-        return self._facc.reshape(self._shape)
+        return self._facc.copy().reshape(self._shape)
 
     @property
     def dem(self):
@@ -96,7 +96,7 @@ class FlowDirections:
         Method that returns the input DEM
 
         """
-        return self._dem[:-1].reshape(self._shape)
+        return self._dem[:-1].copy().reshape(self._shape)
 
     def _shoelace_area(self):
         """
@@ -479,11 +479,11 @@ class FlowDirections:
 
         if as_cells:
             self._facc = flow_acc
-            return flow_acc.reshape(self._shape)
+            return self.flow_accumulation_array
 
         else:
             self._facc = flow_acc_area
-            return flow_acc_area.reshape(self._shape)
+            return self.flow_accumulation_array
 
     def get_watershed_boundary(self, point, **kwargs):
         """
diff --git a/dany/stream_util.py b/dany/stream_util.py
index d8851f2..b5f9b80 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -72,7 +72,7 @@ class StreamBase:
                 f"modelgrid size {self._nnodes}"
             )
 
-        self._stream_array = stream_array.reshape(self._shape)
+        self._stream_array = stream_array.copy().reshape(self._shape)
         self._clear_connectivity()
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
@@ -106,7 +106,7 @@ class StreamBase:
 
         self._stream_array = stream_array.reshape(self._shape)
         self._clear_connectivity()
-        return self._stream_array
+        return self.stream_array
 
     def _clear_connectivity(self):
         """
@@ -180,7 +180,7 @@ class StreamBase:
 
         self._stream_array = stream_array
         self._graph = new_map
-        return new_map
+        return new_map.copy()
 
     def _mf2005_stream_connectivity(self, stream_array=None, group_segments=True):
         """
@@ -319,7 +319,7 @@ class StreamBase:
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-        return seg_graph
+        return seg_graph.copy()
 
     def create_stream_vectors(self, stream_array=None, group_segments=True):
         """
-- 
2.43.0


From a6d8806877fedc5822ae2b4ba1655fe2b29f1ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 16/24] fix: the Sfr2005 builder object overwrote the tables
 passed by the user

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b5f9b80..2001b21 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1041,10 +1041,16 @@ class Sfr2005(StreamBase):
 
         if reach_data is None:
             reach_data = self.reach_data(group_segments=group_segments)
+        else:
+            reach_data = reach_data.copy()
         if segment_data is None:
             segment_data = self.segment_data(group_segments=group_segments)
+        else:
+            segment_data = segment_data.copy()
         if irunbnd is None:
             irunbnd = self.irunbnd(group_segments=group_segments)
+        else:
+            irunbnd = irunbnd.copy()
 
         if apply_defaults:
             pgs_defaults = defaults["pgs_defaults"]
-- 
2.43.0


From 73b35fda8cdb44b3bd63b4db082563a75693c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 17/24] fix: flow was directed to array padding next to nodata
 cells

---
 dany/flow_directions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index ba0a0ba..c98e18a 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -188,8 +188,11 @@ class FlowDirections:
             uniform numpy array of neighboring slopes
 
         """
+        # padding is not a neighbor, even where no other neighbor has a slope
+        is_cell = self._fneighbors != self._fillidx
         fcells = [
-            list(np.where(slope == np.nanmin(slope))[0]) for slope in slopes
+            list(np.where((slope == np.nanmin(slope)) & is_cell[node])[0])
+            for node, slope in enumerate(slopes)
         ]
         for ix, node in enumerate(self._fdir):
             if node != -1:
-- 
2.43.0


From ffe9c02e4730156979ae2c5bb2bfac840c2c567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 18/24] fix: flow_directions discarded its state before
 refusing terminal cells

---
 dany/flow_directions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c98e18a..c6bd738 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -415,10 +415,7 @@ class FlowDirections:
             numpy array of cell numbers that each individual cell flows to
 
         """
-        self._threshold = burn_threshold
-        self._fdir_r = None
-        self._fdir = np.full(self._dem.size - 1, -1)
-        self._fdir[self._min_cell] = self._min_cell
+        nodes = []
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
@@ -430,8 +427,12 @@ class FlowDirections:
             else:
                 nodes = terminal_cells
 
-            for tc in nodes:
-                self._fdir[tc] = tc
+        self._threshold = burn_threshold
+        self._fdir_r = None
+        self._fdir = np.full(self._dem.size - 1, -1)
+        self._fdir[self._min_cell] = self._min_cell
+        for tc in nodes:
+            self._fdir[tc] = tc
 
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
-- 
2.43.0


From d33015ffd5071df38251f4f4fad4aae3c6a6bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 19/24] fix: outlet and terminal cells were rerouted while
 resolving flats

---
 dany/flow_directions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c6bd738..1f34288 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -437,6 +437,10 @@ class FlowDirections:
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
         self._calculate_flowcell(slopes)
+        # resolving flats can route through the outlet and terminal cells
+        for tc in list(self._min_cell) + list(nodes):
+            self._fdir[tc] = tc
+
         return self.flow_direction_array
 
     def flow_accumulation(self, as_cells=False):
-- 
2.43.0


From c19aa75e61fb5d4c1a89db8a03770ae535d3c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 20/24] fix: threshold_from_control_points did not return for
 circular flow directions

---
 dany/stream_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 2001b21..033e2ae 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -444,8 +444,12 @@ class StreamBase:
         array = np.full(self._facc.shape, threshold).ravel()
         for node in cellids:
             stack = [node]
+            visited = set()
             while stack:
                 node = stack.pop(0)
+                if node in visited:
+                    continue
+                visited.add(node)
                 neighs = self._neighbors[node]
                 array[node] = self._facc[node] - 5
                 flows_in = []
-- 
2.43.0


From a47865527ef8ae3eabf3397a9f7cffd7a7ae6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 21/24] fix: sink filling discarded the fill increment of
 integer elevations

---
 dany/dem_conditioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 04b375c..5e042f7 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    newdem = np.array(dem, dtype=float).ravel()
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From c094ca6ebae6be45838be333e95fd7f85c078071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 22/24] fix: control point thresholds were truncated to whole
 numbers

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 033e2ae..9bc2560 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -441,7 +441,7 @@ class StreamBase:
 
             cellids.append(cellid)
 
-        array = np.full(self._facc.shape, threshold).ravel()
+        array = np.full(self._facc.shape, threshold, dtype=float).ravel()
         for node in cellids:
             stack = [node]
             visited = set()
-- 
2.43.0


From 52c74c58322ca886d361dea90565a766c10d13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 23/24] fix: boolean stream arrays could not hold reach or
 segment numbers

---
 dany/stream_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9bc2560..9957a9a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -142,7 +142,8 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
+        # boolean or small integer arrays can not hold the reach numbers
+        stream_array = np.where(stream_array, 1, 0).ravel()
         strm_nodes = np.where(stream_array)[0]
 
         # assign an initial reach number to stream cells
@@ -213,7 +214,8 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
+        # boolean or small integer arrays can not hold the segment numbers
+        stream_array = np.where(stream_array, 1, 0).ravel()
         strm_nodes = np.where(stream_array)[0]
 
         graph = {}
-- 
2.43.0


From d9aeadf8d072e1088e96897cb7f908f52825e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 24/24] fix: many to one cascades linked inactive cells instead
 of basin outlets

With a basin boundary, a cell draining out of the basin got no link and the
inactive cell it drains to got one to itself. Link each such outlet to itself,
as the many to many cascades do.
---
 dany/stream_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9957a9a..b126f07 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1294,12 +1294,12 @@ class PrmsStreams(StreamBase):
             if len(idxs) == 0:
                 continue
 
+            hru_up = list(idxs)
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_down = list(idxs)
+            else:
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0

