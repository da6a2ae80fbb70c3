From 29cf379851496a2964f8616aba5b9d7fece39354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 01/75] fix: dispatching must not confuse a task with its own
 stop message

---
 root/config/dispatching.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/root/config/dispatching.py b/root/config/dispatching.py
index 566cf96..7382530 100644
--- a/root/config/dispatching.py
+++ b/root/config/dispatching.py
@@ -45,7 +45,7 @@ def DISPATCHING(originalTaskInputs: list, method):
                 if any(CORE_STATUS):  # there are free cores.
                     core2bUsed = CORE_STATUS.index(True)
                     data2bSent = taskInputs.pop(0)
-                    COMM.send(data2bSent, dest=core2bUsed, tag=core2bUsed)
+                    COMM.send((True, data2bSent), dest=core2bUsed, tag=core2bUsed)
                     CORE_STATUS[core2bUsed] = False
                 else:
                     newFreeCore = np.empty(1, dtype='i')
@@ -67,11 +67,11 @@ def DISPATCHING(originalTaskInputs: list, method):
             # now all tasks are gone. Send message to all slaves to tell they stop waiting for more new tasks.
             for i in SLAVE_RANKS:
                 assert CORE_STATUS[i]  # must be true
-                COMM.send('stop waiting for new tasks', dest=i, tag=i)  # ask it to stop waiting.
+                COMM.send((False, None), dest=i, tag=i)  # ask it to stop waiting.
         else:
             while 1:
-                nextTaskData = COMM.recv(source=MASTER_RANK, tag=RANK)
-                if nextTaskData == 'stop waiting for new tasks':
+                more, nextTaskData = COMM.recv(source=MASTER_RANK, tag=RANK)
+                if not more:
                     break  # stop waiting
                 else:
                     resultPOOL.append(method(nextTaskData))
-- 
2.43.0


From f35a01068e03ef24e6f4cc5219dfe0b2514965ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 02/75] fix: involved_mesh_boundaries used an undefined name

---
 objects/CSCG/_3d/mesh/elements/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/mesh/elements/main.py b/objects/CSCG/_3d/mesh/elements/main.py
index 2a00dc4..6588044 100644
--- a/objects/CSCG/_3d/mesh/elements/main.py
+++ b/objects/CSCG/_3d/mesh/elements/main.py
@@ -160,7 +160,7 @@ class _3dCSCG_Mesh_Elements(FrozenOnly):
         """{List[str]}: Return a list of mesh boundary names on which local mesh-elements has side.
         """
         if self._involved_mesh_boundaries_ is None:
-            RoES = mesh.boundaries.range_of_element_sides
+            RoES = self._mesh_.boundaries.range_of_element_sides
             _involved_mesh_boundaries_ = list()
             for bn in RoES:
                 if len(RoES[bn]) > 0:
-- 
2.43.0


From 3b5e379fe2ebd5f9d5d7c527bb121fcca181b124 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 03/75] fix: element_at_region_corner must look at the
 requested corner

---
 objects/CSCG/_3d/mesh/elements/do/find.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/elements/do/find.py b/objects/CSCG/_3d/mesh/elements/do/find.py
index 8da615d..9529c1d 100644
--- a/objects/CSCG/_3d/mesh/elements/do/find.py
+++ b/objects/CSCG/_3d/mesh/elements/do/find.py
@@ -38,22 +38,22 @@ class _3dCSCG_Mesh_Elements_DO_FIND(FrozenOnly):
         assert which_corner in corner_names, \
             f"which_corner={which_corner} is illegal!"
 
-        if 'N' in corner_names:
+        if 'N' in which_corner:
             id0 = 0
         else:
-            assert 'S' in corner_names
+            assert 'S' in which_corner
             id0 = -1
 
-        if 'W' in corner_names:
+        if 'W' in which_corner:
             id1 = 0
         else:
-            assert 'E' in corner_names
+            assert 'E' in which_corner
             id1 = -1
 
-        if 'B' in corner_names:
+        if 'B' in which_corner:
             id2 = 0
         else:
-            assert 'F' in corner_names
+            assert 'F' in which_corner
             id2 = -1
 
         element_numbering = mesh.___PRIVATE_generate_element_global_numbering___(number_what=region_name)
-- 
2.43.0


From 5a78cee9e5096a630c32ff0ab9554d0d98d11745 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 04/75] fix: node elements attached-finders must skip cores
 that do not hold the node

---
 objects/CSCG/_3d/mesh/node/elements/do/find/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/node/elements/do/find/main.py b/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
index db0ae43..54f8a27 100644
--- a/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
+++ b/objects/CSCG/_3d/mesh/node/elements/do/find/main.py
@@ -127,7 +127,8 @@ class _3dCSCG_NodeMesh_DoFind(FrozenOnly):
         ___ = set()
 
         for EE in EDGE_ELEMENTS:
-            ___.update(EE)
+            if EE is not None:
+                ___.update(EE)
 
         return list(___)
 
@@ -174,7 +175,8 @@ class _3dCSCG_NodeMesh_DoFind(FrozenOnly):
         ___ = set()
 
         for TE in TRACE_ELEMENTS:
-            ___.update(TE)
+            if TE is not None:
+                ___.update(TE)
 
         return list(___)
 
-- 
2.43.0


From 3e1986370ae66bcd9376ec609a9283b727d4ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/75] fix: SWV0 numbering state must exist on cores without
 elements before the mesh is frozen

---
 objects/CSCG/_3d/mesh/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/main.py b/objects/CSCG/_3d/mesh/main.py
index c460287..c16ef2c 100644
--- a/objects/CSCG/_3d/mesh/main.py
+++ b/objects/CSCG/_3d/mesh/main.py
@@ -260,6 +260,9 @@ class _3dCSCG_Mesh(CSCG_MESH_BASE):
             self.___SWV0_para___ = dict()  # once this method will need optimization,
             # we initialize a variable like this.
 
+            if not hasattr(self, '___have_empty_core___'):
+                self.___have_empty_core___ = dict()
+
             current_num = 0
 
             for rn in rns:
@@ -270,8 +273,6 @@ class _3dCSCG_Mesh(CSCG_MESH_BASE):
                     NCR = len(cores_for_this_region)
 
                     # !-Once we use _element_distribution_, _element_indices_, or _num_local_elements_, wo do this:   !!
-                    if not hasattr(self, '___have_empty_core___'):
-                        self.___have_empty_core___ = dict()
                     if rn in self.___have_empty_core___:
                         # to make sure that after optimization, character_num_elements does not change
                         have_empty_core = self.___have_empty_core___[rn]
-- 
2.43.0


From e78ad0d5909dcd690b7f327d76ac5131d3420fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 06/75] fix: 2D trace numbering reported zero local dofs

---
 objects/CSCG/_2d/forms/trace/base/numbering/Naive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
index dc0891e..391333a 100644
--- a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
@@ -62,6 +62,7 @@ class _2dCSCG_Trace_Numbering_Naive(FrozenOnly):
             am_UD, am_LR = type_amount_dict[i]
             start_num = am_UD * NBO[0] + am_LR * NBO[1]
             GM_TEW[i] = range(start_num, start_num + num_basis_onside[t_e_i.CHARACTERISTIC_edge])
+            local_num_dofs += num_basis_onside[t_e_i.CHARACTERISTIC_edge]
 
         MAP = self._mesh_.trace.elements.map
         for i in MAP:
-- 
2.43.0


From bac21a6d2ac47550187693dd45acbc1f1afa0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 07/75] fix: two local-trace dof finders shared one cache with
 different contents

---
 .../_3d/forms/localTrace/base/numbering/do/find.py    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
index fe4a55f..17f268a 100644
--- a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
+++ b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
@@ -15,6 +15,7 @@ class _3dCSCG_LocalTrace_Numbering_DoFind(FrozenOnly):
         """"""
         self._ltf_ = ltf
         self._localSideCache_ = dict()
+        self._localSideRangeCache_ = dict()
         self._freeze_self_()
 
     def local_dofs_on_element_side(self, side_name):
@@ -107,12 +108,12 @@ class _3dCSCG_LocalTrace_Numbering_DoFind(FrozenOnly):
         """
         assert self._ltf_.num.basis == GM.global_shape[1]
 
-        if k not in self._localSideCache_:
-            self._localSideCache_[k] = dict()
+        if k not in self._localSideRangeCache_:
+            self._localSideRangeCache_[k] = dict()
         else:
             pass
 
-        if side_name not in self._localSideCache_[k]:
+        if side_name not in self._localSideRangeCache_[k]:
             NBO = self._ltf_.num.basis_onside
             NS = NBO['N']
             WE = NBO['W']
@@ -131,10 +132,10 @@ class _3dCSCG_LocalTrace_Numbering_DoFind(FrozenOnly):
                 indices = [2*NS+2*WE+BF, 2*NS+2*WE+2*BF]
             else:
                 raise Exception()
-            self._localSideCache_[k][side_name] = indices
+            self._localSideRangeCache_[k][side_name] = indices
         else:
             pass
 
-        i0, i1 = self._localSideCache_[k][side_name]
+        i0, i1 = self._localSideRangeCache_[k][side_name]
 
         return GM[element].full_vector[i0:i1]
-- 
2.43.0


From d8994b9904a0c0d812ffc48818eee4afbb50736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 08/75] fix: a gathering vector can be made from a list as
 documented

---
 tools/elementwiseCache/gathering/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/gathering/vector.py b/tools/elementwiseCache/gathering/vector.py
index 587a33c..c489e56 100644
--- a/tools/elementwiseCache/gathering/vector.py
+++ b/tools/elementwiseCache/gathering/vector.py
@@ -19,7 +19,7 @@ class Gathering_Vector(FrozenOnly):
         if isinstance(gv, list):  # list of integers
             self._gv_ = np.array(gv)
 
-        if isinstance(gv, tuple):  # tuple of a series of range object.
+        elif isinstance(gv, tuple):  # tuple of a series of range object.
             for gvi in gv:
                 assert isinstance(gvi, range), "Tuple of ranges."
             CHAIN = chain(*gv)
-- 
2.43.0


From 3dbf368ea06ada53af8bfc9e692646f8c1de5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:35 +0000
Subject: [PATCH 09/75] fix: 2D 0-form numbering gave one node two numbers when
 its elements only meet in the last one

---
 .../forms/standard/base/numbering/Naive.py    | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
index a3517b5..8019d1b 100644
--- a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
@@ -129,6 +129,7 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
             return gathering_matrix, numOfDofs, extraInfo
 
         global_numbering = None
+        merges = None
         # non-hybrid numbering ...
         mesh = self._sf_.mesh
         if mesh.domain.whether.periodic:
@@ -151,6 +152,7 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
             p = self._sf_.p
             p = (p[0]+1, p[1]+1)
             numberingCache = dict()
+            merges = dict()  # a node may be numbered twice before its elements meet; we merge these numbers later.
             currentNumber = 0
             other_side_name = 'DURL'  # not an error, this is other side name.
             sidePairDict = {'U': 'D', 'D': 'U', 'L': 'R', 'R': 'L'}
@@ -186,7 +188,7 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                                 numberingCache[otherElement] = -np.ones(p, dtype=int)
                             if otherElement > k:
                                 self.___PRIVATE_for_0Form_pass_element_side_numbering_from_to___(
-                                    k, sidePairDict[otherSide], otherElement, otherSide, numberingCache
+                                    k, sidePairDict[otherSide], otherElement, otherSide, numberingCache, merges
                                 )
                 toBeSentAway = dict()
                 for k in element_indices:
@@ -198,9 +200,23 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                 for k in element_indices:
                     del numberingCache[k]
 
+            if merges:  # renumber such that merged numbers disappear and the numbering has no gap.
+                renumber = np.arange(currentNumber)
+                for old in sorted(merges):
+                    new = old
+                    while new in merges:
+                        new = merges[new]
+                    renumber[old] = new
+                merges = np.unique(renumber, return_inverse=True)[1]
+            else:
+                merges = None
+        merges = COMM.bcast(merges, root=MASTER_RANK)
+
         dofsPOOL = set()
         for i in self._sf_.mesh.elements:
             vector = global_numbering[i].ravel('F')
+            if merges is not None:
+                vector = merges[vector]
             gathering_matrix[i] = Gathering_Vector(i, vector)
             dofsPOOL.update(vector)
         gathering_matrix = Gathering_Matrix(gathering_matrix, mesh_type='_2dCSCG')
@@ -210,7 +226,7 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
 
     @staticmethod
     def ___PRIVATE_for_0Form_pass_element_side_numbering_from_to___(
-            fromElement, fromSide, toElement, toSide, numberingCache
+            fromElement, fromSide, toElement, toSide, numberingCache, merges
     ):
 
         if fromSide == 'U':
@@ -224,6 +240,25 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
         else:
             raise Exception()
 
+        if toSide == 'U':
+            existing = numberingCache[toElement][0, :]
+        elif toSide == 'D':
+            existing = numberingCache[toElement][-1, :]
+        elif toSide == 'L':
+            existing = numberingCache[toElement][:, 0]
+        elif toSide == 'R':
+            existing = numberingCache[toElement][:, -1]
+        else:
+            raise Exception()
+
+        for old, new in zip(existing, data):
+            while old in merges:
+                old = merges[old]
+            while new in merges:
+                new = merges[new]
+            if old != -1 and old != new:
+                merges[max(old, new)] = min(old, new)
+
         if toSide == 'U':
             numberingCache[toElement][0, :] = data
         elif toSide == 'D':
-- 
2.43.0


From 1ecbf5777bf8639af5129929e4cb93988d159682 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 10/75] fix: memoize1 must not return values cached for an
 object that no longer exists

---
 components/decorators/memoize/memoize_1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/components/decorators/memoize/memoize_1.py b/components/decorators/memoize/memoize_1.py
index 3f1168d..2637bb6 100644
--- a/components/decorators/memoize/memoize_1.py
+++ b/components/decorators/memoize/memoize_1.py
@@ -18,9 +18,11 @@ def memoize1(func):
     def memoized_func(*args, **kwargs):
         key = str(args) + str(kwargs)
         try:
-            return cache[key]
+            return cache[key][0]
         except KeyError:
-            cache[key] = func(*args, **kwargs)
-            return cache[key]
+            # The key contains the addresses of objects. Keep these objects alive such that their addresses
+            # can not be taken over by other objects which would then get wrong cached values.
+            cache[key] = func(*args, **kwargs), args, kwargs
+            return cache[key][0]
 
     return memoized_func
-- 
2.43.0


From b8bb1b044b8a95ea100d849f67680b3869b751eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 11/75] fix: elements of different sizes must not share one
 metric mark

---
 .../element/types_wrt_metric/orthogonal.py       |  9 ++++-----
 .../element/types_wrt_metric/parallelogram.py    |  9 +++------
 .../element/types_wrt_metric/orthogonal.py       | 16 +++++++---------
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 37f3883..d3cc598 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -14,13 +14,12 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     @accepts('self', (tuple, list, 'ndarray', 'ndim=1', 'shape=(2)'))
     def __init__(self, LxLy):
         self._LxLy_ = LxLy
-        Lx, Ly = LxLy
-        Lx = round(Lx, 5)
-        Ly = round(Ly, 5)
+        # relative (not absolute) precision, so that only elements of the same size have the same mark.
+        Lx, Ly = ['%.9g' % L for L in LxLy]
         if Lx == Ly:
-            self._mark_ = 'Orth.{:.4f}'.format(Lx)
+            self._mark_ = 'Orth.{}'.format(Lx)
         else:
-            self._mark_ = 'Orth.x{:.4f}y{:.4f}'.format(Lx, Ly)
+            self._mark_ = 'Orth.x{}y{}'.format(Lx, Ly)
         self._freeze_self_()
 
     # def ___CLASSIFY_mpRfT2_CELL_of_origin_and_delta___(self, origin_and_delta):
diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
index 3f16b20..499201e 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
@@ -24,13 +24,10 @@ class ParallelogramElement(ElementTypeWr2MetricBase):
         assert 0 < L_angle_U < np.pi, f"L.U angle = {L_angle_U} wrong!"
         assert 0 <= angleL < 2 * np.pi, f" angle L={angleL} must be < 2pi."
 
-        angleL = round(angleL, 6)
-        L = round(L, 6)
-        L_angle_U = round(L_angle_U, 6)
-        U = round(U, 6)
-
+        # relative (not absolute) precision for the lengths, so that only elements of the same size and
+        # shape have the same mark.
         self._mark_ = 'Parallelogram.' + 'aL{}_L{}_{}_U{}'.format(
-            '%.5f' % angleL, '%.5f' % L, '%.5f' % L_angle_U, '%.5f' % U)
+            '%.9f' % angleL, '%.9g' % L, '%.9f' % L_angle_U, '%.9g' % U)
 
         self._freeze_self_()
 
diff --git a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 0ca910c..3216fcf 100644
--- a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -11,21 +11,19 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     def __init__(self, LxLyLz):
         self._LxLyLz_ = LxLyLz
 
-        Lx, Ly, Lz = LxLyLz
-        Lx = round(Lx, 6)
-        Ly = round(Ly, 6)
-        Lz = round(Lz, 6)
+        # relative (not absolute) precision, so that only elements of the same size have the same mark.
+        Lx, Ly, Lz = ['%.9g' % L for L in LxLyLz]
 
         if Lx == Ly == Lz:
-            self._mark_ = 'Orth.{}'.format('%.3f' % Lx)
+            self._mark_ = 'Orth.{}'.format(Lx)
         elif Lx == Ly:
-            self._mark_ = 'Orth.xy{}z{}'.format('%.4f' % Lx, '%.4f' % Lz)
+            self._mark_ = 'Orth.xy{}z{}'.format(Lx, Lz)
         elif Lx == Lz:
-            self._mark_ = 'Orth.xz{}y{}'.format('%.4f' % Lx, '%.4f' % Ly)
+            self._mark_ = 'Orth.xz{}y{}'.format(Lx, Ly)
         elif Ly == Lz:
-            self._mark_ = 'Orth.yz{}x{}'.format('%.4f' % Ly, '%.4f' % Lx)
+            self._mark_ = 'Orth.yz{}x{}'.format(Ly, Lx)
         else:
-            self._mark_ = 'Orth.x{}y{}z{}'.format('%.3f' % Lx, '%.3f' % Ly, '%.3f' % Lz)
+            self._mark_ = 'Orth.x{}y{}z{}'.format(Lx, Ly, Lz)
 
         self._freeze_self_()
 
-- 
2.43.0


From 70e5c9ba701f7c6d8bba08a108fd2ed8b3fd37f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 12/75] fix: vectorized 2D Jacobian matrices for meshes mixing
 orthogonal and curved elements

---
 .../coordinate_transformation/vectorized.py    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
index 3b47ee8..3ce1a25 100644
--- a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
+++ b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
@@ -36,12 +36,13 @@ class _2dCSCG_MeshElements_CT_Vectorized(FrozenOnly):
             J00, J01, J10, J11 = list(), list(), list(), list()
 
             J = self._elements_.coordinate_transformation.Jacobian_matrix(xi, et)
+            zeros = np.zeros(np.shape(xi))  # the off-diagonal entries of an orthogonal element are numbers 0.
 
             for i in self._elements_:
-                J00.append(J[i][0][0])
-                J01.append(J[i][0][1])
-                J10.append(J[i][1][0])
-                J11.append(J[i][1][1])
+                J00.append(J[i][0][0] + zeros)
+                J01.append(J[i][0][1] + zeros)
+                J10.append(J[i][1][0] + zeros)
+                J11.append(J[i][1][1] + zeros)
 
             J00 = np.array(J00)
             J01 = np.array(J01)
@@ -86,12 +87,13 @@ class _2dCSCG_MeshElements_CT_Vectorized(FrozenOnly):
             iJ00, iJ01, iJ10, iJ11 = list(), list(), list(), list()
 
             iJ = self._elements_.coordinate_transformation.inverse_Jacobian_matrix(xi, et)
+            zeros = np.zeros(np.shape(xi))  # the off-diagonal entries of an orthogonal element are numbers 0.
 
             for i in self._elements_:
-                iJ00.append(iJ[i][0][0])
-                iJ01.append(iJ[i][0][1])
-                iJ10.append(iJ[i][1][0])
-                iJ11.append(iJ[i][1][1])
+                iJ00.append(iJ[i][0][0] + zeros)
+                iJ01.append(iJ[i][0][1] + zeros)
+                iJ10.append(iJ[i][1][0] + zeros)
+                iJ11.append(iJ[i][1][1] + zeros)
 
             iJ00 = np.array(iJ00)
             iJ01 = np.array(iJ01)
-- 
2.43.0


From 2cb5291d13958652d8d13b0fc77b2cebf596a09f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 13/75] fix: constant Jacobian of trace elements must use the
 physical size of the trace element

---
 .../domain/regions/region/types_wrt_metric/crazy.py  |  4 ++--
 .../element/coordinate_transformation/constant.py    | 12 ++++--------
 .../elements/element/types_wrt_metric/orthogonal.py  |  2 +-
 .../domain/regions/region/types_wrt_metric/crazy.py  |  7 ++++---
 .../regions/region/types_wrt_metric/orthogonal.py    |  7 ++++---
 .../element/coordinate_transformation/constant.py    |  9 ++-------
 .../elements/element/types_wrt_metric/orthogonal.py  |  5 ++---
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index b2f4554..9fc0817 100644
--- a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -51,10 +51,10 @@ class Crazy(TypeWr2Metric):
             s0, s1 = trace_spacing
             if isinstance(s0, float):
                 along = 'y'
-                d = s1[1]-s1[0]
+                d = (s1[1]-s1[0]) * self._Lxy_[1]
             elif isinstance(s1, float):
                 along = 'x'
-                d = s0[1]-s0[0]
+                d = (s0[1]-s0[0]) * self._Lxy_[0]
             else:
                 raise Exception()
             return OrthogonalTraceElement(along, d)
diff --git a/objects/CSCG/_2d/mesh/trace/elements/element/coordinate_transformation/constant.py b/objects/CSCG/_2d/mesh/trace/elements/element/coordinate_transformation/constant.py
index 177d994..eaba7de 100644
--- a/objects/CSCG/_2d/mesh/trace/elements/element/coordinate_transformation/constant.py
+++ b/objects/CSCG/_2d/mesh/trace/elements/element/coordinate_transformation/constant.py
@@ -33,15 +33,11 @@ class _2dCSCG_TE_CT_Constant(FrozenOnly):
 
             if isinstance(eMark, str) and eMark[:4] == 'Orth':
                 # orthogonal(straight and parallel to axis)
-                if 'x' in eMark: # not a square
-                    xy = eMark[6:]
-                    x, y = xy.split('y')
-                    if p in 'UD':
-                        LEN = float(y)
-                    else:
-                        LEN = float(x)
+                x, y = element.type_wrt_metric._LxLy_
+                if p in 'UD':
+                    LEN = y
                 else:
-                    LEN = float(eMark[5:])
+                    LEN = x
 
                 self._Jacobian_ = LEN / 2
 
diff --git a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index e210bd6..b4e51d9 100644
--- a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -18,5 +18,5 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         """
         assert len(along) == 1 and along in 'xy', f"along={along} wrong."
         assert isinstance(length, (int, float)) and length > 0, f"length={length} wrong."
-        self._mark_ = f'Orth.{along}' + '{}'.format('%.8f' % length)
+        self._mark_ = f'Orth.{along}' + '{}'.format('%.9g' % length)
         self._freeze_self_()
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index fa13ab8..68afd38 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -49,15 +49,16 @@ class Crazy(TypeWr2MetricBase):
         """
         assert len(trace_spacing) == 3, "It is not a trace spacing."
         s0, s1, s2 = trace_spacing
+        Lx, Ly, Lz = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * Ly, (s2[1]-s2[0]) * Lz
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * Lz, (s0[1]-s0[0]) * Lx
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * Lx, (s1[1]-s1[0]) * Ly
         else:
             raise Exception()
 
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
index e354942..be8adcd 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
@@ -71,15 +71,16 @@ class Orthogonal(TypeWr2Metric):
         assert len(trace_spacing) == 3, "It is not a trace spacing."
 
         s0, s1, s2 = trace_spacing
+        Lx, Ly, Lz = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * Ly, (s2[1]-s2[0]) * Lz
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * Lz, (s0[1]-s0[0]) * Lx
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * Lx, (s1[1]-s1[0]) * Ly
         else:
             raise Exception()
 
diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/constant.py b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/constant.py
index 7abcf21..089aebf 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/constant.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/constant.py
@@ -71,14 +71,9 @@ class _3dTraceElement_CT_Constant(FrozenOnly):
 
             if te.whether.orthogonal:
 
-                tMark = te.type_wrt_metric.mark
+                d1, d2 = te.type_wrt_metric._d1d2_
 
-                f0, f1 = tMark.split('d')[1:]
-
-                f0 = float(f0[1:])
-                f1 = float(f1[1:])
-
-                self._Jacobian_ = f0 * f1 / 4
+                self._Jacobian_ = d1 * d2 / 4
 
             # + elif, because when it is not orthogonal, the Jacobian can also be constant.
 
diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index 6bc81e2..6f2b6b5 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -24,7 +24,6 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         assert len(perp_to) == 1 and perp_to in 'xyz', f"perp_to={perp_to} wrong."
         assert isinstance(d1, (int, float)) and d1 > 0, f"d1={d1} wrong."
         assert isinstance(d2, (int, float)) and d2 > 0, f"d2={d2} wrong."
-        d1 = round(d1, 6)
-        d2 = round(d2, 6)
-        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.5f' % d1, '%.5f' % d2)
+        self._d1d2_ = d1, d2
+        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.9g' % d1, '%.9g' % d2)
         self._freeze_self_()
-- 
2.43.0


From 5691f6fed109c723faacc947779b8b651ec6dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 14/75] fix: reconstruction on a region-wise grid must not use
 the grid distribution of another mesh

---
 objects/CSCG/_2d/forms/standard/base/reconstruct.py | 4 +++-
 objects/CSCG/_3d/forms/standard/base/reconstruct.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
index b2a3485..d1c8115 100644
--- a/objects/CSCG/_2d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
@@ -9,6 +9,7 @@ import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_2dCSCG_SF_Reconstruct___ = {
+    'mesh': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -111,7 +112,7 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
             rs[rn] = r, s
 
         # ------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] is not None:
+        if ___grid_cache_2dCSCG_SF_Reconstruct___['mesh'] is mesh and ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] is not None:
             c_rs = ___grid_cache_2dCSCG_SF_Reconstruct___['grid']
             cached = True
             for rn in rs:
@@ -185,6 +186,7 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
+        ___grid_cache_2dCSCG_SF_Reconstruct___['mesh'] = mesh
         ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = rs
         ___grid_cache_2dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         # ======================================================================================
diff --git a/objects/CSCG/_3d/forms/standard/base/reconstruct.py b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
index 4762544..56b2f6b 100644
--- a/objects/CSCG/_3d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
@@ -13,6 +13,7 @@ import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_3dCSCG_SF_Reconstruct___ = {
+    'mesh': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -127,7 +128,7 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
             rst[rn] = r, s, t
 
         #------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] is not None:
+        if ___grid_cache_3dCSCG_SF_Reconstruct___['mesh'] is mesh and ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] is not None:
             c_rst = ___grid_cache_3dCSCG_SF_Reconstruct___['grid']
             cached = True
 
@@ -209,6 +210,7 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
+        ___grid_cache_3dCSCG_SF_Reconstruct___['mesh'] = mesh
         ___grid_cache_3dCSCG_SF_Reconstruct___['grid']  = rst
         ___grid_cache_3dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         #==========================================================================================1
-- 
2.43.0


From b7d9a4536ca37dbd954a4bbbaced7617b62536e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 15/75] fix: L^n errors of odd n are integrals of absolute
 values

---
 objects/CSCG/_2d/forms/standard/base/error.py            | 2 +-
 objects/CSCG/_3d/forms/standard/base/error.py            | 2 +-
 objects/miUsGrid/triangular/forms/standard/base/error.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/error.py b/objects/CSCG/_2d/forms/standard/base/error.py
index 791896d..08da12a 100644
--- a/objects/CSCG/_2d/forms/standard/base/error.py
+++ b/objects/CSCG/_2d/forms/standard/base/error.py
@@ -84,7 +84,7 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
             element = self._sf_.mesh.elements[i]
             detJ = element.coordinate_transformation.Jacobian(xi, eta)
             LEIntermediate = np.sum(
-                [(v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i]))**n
+                [np.abs(v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i]))**n
                     for m in range(OneOrThree)], axis=0
             )
             localError.append(np.sum(LEIntermediate * detJ * quad_weights))
diff --git a/objects/CSCG/_3d/forms/standard/base/error.py b/objects/CSCG/_3d/forms/standard/base/error.py
index 3755b43..fa2925e 100644
--- a/objects/CSCG/_3d/forms/standard/base/error.py
+++ b/objects/CSCG/_3d/forms/standard/base/error.py
@@ -150,7 +150,7 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
                 element = self._sf_.mesh.elements[i]
                 detJ = element.coordinate_transformation.Jacobian(xi, eta, sigma)
                 LEIntermediate = np.sum(
-                    [(v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i]))**n
+                    [np.abs(v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i]))**n
                      for m in range(OneOrThree)], axis=0
                 )
                 # noinspection PyUnboundLocalVariable
diff --git a/objects/miUsGrid/triangular/forms/standard/base/error.py b/objects/miUsGrid/triangular/forms/standard/base/error.py
index d61fc42..6d1f511 100644
--- a/objects/miUsGrid/triangular/forms/standard/base/error.py
+++ b/objects/miUsGrid/triangular/forms/standard/base/error.py
@@ -48,7 +48,7 @@ class miUs_Triangular_SF_Error(FrozenOnly):
             element = self._sf_.mesh.elements[i]
             detJ = element.coordinate_transformation.Jacobian(xi, eta)
             LEIntermediate = np.sum(
-                [(v[i][m] - FUNC[m](*xyz[i]))**n for m in range(OneOrTwo)], axis=0
+                [np.abs(v[i][m] - FUNC[m](*xyz[i]))**n for m in range(OneOrTwo)], axis=0
             )
 
             localError.append(np.sum(LEIntermediate * detJ * quad_weights))
-- 
2.43.0


From 100e6d8285ae95899ce82681111ec55c25939533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 16/75] fix: 3D L2 energy with a form of another space

---
 objects/CSCG/_3d/forms/standard/base/do.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/do.py b/objects/CSCG/_3d/forms/standard/base/do.py
index d0a788b..bf5fc51 100644
--- a/objects/CSCG/_3d/forms/standard/base/do.py
+++ b/objects/CSCG/_3d/forms/standard/base/do.py
@@ -35,13 +35,13 @@ class _3dCSCG_Standard_Form_DO(FrozenOnly):
             repM = M[i].toarray() # representative Mass matrix
             LOCAL = np.einsum('ij, ki, kj -> ',
                               repM,
-                              self._sf_.cochain.array,
                               other.cochain.array,
+                              self._sf_.cochain.array,
                               optimize='greedy')
         else:
             LOCAL = list()
             for i in self._sf_.mesh.elements:
-                LOCAL.append(self._sf_.cochain.local[i] @ M[i] @ other.cochain.local[i])
+                LOCAL.append(other.cochain.local[i] @ M[i] @ self._sf_.cochain.local[i])
             LOCAL = np.sum(LOCAL)
 
         return COMM.allreduce(LOCAL, op=MPI.SUM)
-- 
2.43.0


From 04f0488e75b89aeb4068acbfcc79d2acbbca7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 17/75] fix: reconstruction in selected regions used a method
 that does not exist

---
 objects/CSCG/_3d/forms/standard/_0s/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py | 4 ++--
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py | 4 ++--
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
index 7ecde9e..1b95c13 100644
--- a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
@@ -47,7 +47,7 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 55fe959..53d8900 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -43,7 +43,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
@@ -55,7 +55,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         # ----------- vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index 016d761..e252d1c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -44,7 +44,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
@@ -56,7 +56,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         #------------ vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index 65af2b6..ee7c502 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -52,7 +52,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
@@ -65,7 +65,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
 
-- 
2.43.0


From 1d7a9f3efbe2e4acec9b7a40d79f366b371b43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 18/75] fix: region of a node or edge element used a method
 that does not exist

---
 objects/CSCG/_3d/mesh/edge/elements/element/main.py | 2 +-
 objects/CSCG/_3d/mesh/node/elements/element/main.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/edge/elements/element/main.py b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
index 821d7c4..17f3be8 100644
--- a/objects/CSCG/_3d/mesh/edge/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
@@ -110,7 +110,7 @@ class _3dCSCG_Edge_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this edge element is in this regions."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
 
 
diff --git a/objects/CSCG/_3d/mesh/node/elements/element/main.py b/objects/CSCG/_3d/mesh/node/elements/element/main.py
index d6d897b..0099074 100644
--- a/objects/CSCG/_3d/mesh/node/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/node/elements/element/main.py
@@ -106,5 +106,5 @@ class _3dCSCG_Node_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this node element is in this region."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
-- 
2.43.0


From 9d8527503c4aa007f6c2561c1721d2a16d771b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 19/75] fix: shifted L^n error (upon=True) used an attribute
 that does not exist

---
 objects/CSCG/_2d/forms/standard/base/error.py | 2 +-
 objects/CSCG/_3d/forms/standard/base/error.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/error.py b/objects/CSCG/_2d/forms/standard/base/error.py
index 08da12a..715eeb3 100644
--- a/objects/CSCG/_2d/forms/standard/base/error.py
+++ b/objects/CSCG/_2d/forms/standard/base/error.py
@@ -60,7 +60,7 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi  # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func_val = [self._sf_.CF.do.evaluate_func_at_time()[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
diff --git a/objects/CSCG/_3d/forms/standard/base/error.py b/objects/CSCG/_3d/forms/standard/base/error.py
index fa2925e..0757948 100644
--- a/objects/CSCG/_3d/forms/standard/base/error.py
+++ b/objects/CSCG/_3d/forms/standard/base/error.py
@@ -101,7 +101,7 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func_val = [self._sf_.CF.do.evaluate_func_at_time()[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
-- 
2.43.0


From cb2ad1a5dd3b9aa519d1bcbc4227861e6e7b9efc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 20/75] fix: sums and differences of column vectors must be
 cached by the keys of both operands

---
 .../dataStructures/objects/columnVector/helpers/add.py          | 2 +-
 .../dataStructures/objects/columnVector/helpers/sub.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index f34ec64..8d66937 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 582eaaf..40e4875 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
-- 
2.43.0


From 52549f9e5e6fe5915ace24ffaf7ad930ec3fce72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 21/75] fix: cache keys of different operand keys must not
 become equal by joining them

---
 tools/elementwiseCache/dataStructures/keys.py   | 17 +++++++++++++++++
 .../columnVector/helpers/___PRIVATE_sum___.py   |  3 ++-
 .../objects/columnVector/helpers/add.py         |  3 ++-
 .../objects/columnVector/helpers/sub.py         |  3 ++-
 .../objects/sparseMatrix/helpers/Psum.py        |  3 ++-
 .../objects/sparseMatrix/helpers/add.py         |  3 ++-
 .../objects/sparseMatrix/helpers/matmul.py      |  3 ++-
 .../objects/sparseMatrix/helpers/sub.py         |  3 ++-
 .../objects/sparseMatrix/helpers/vecmul.py      |  3 ++-
 .../operators/bmat/sparse_matrix/helpers/KG.py  | 17 ++++-------------
 .../concatenate/column_vector/helpers/KG.py     | 17 ++++-------------
 11 files changed, 41 insertions(+), 34 deletions(-)
 create mode 100644 tools/elementwiseCache/dataStructures/keys.py

diff --git a/tools/elementwiseCache/dataStructures/keys.py b/tools/elementwiseCache/dataStructures/keys.py
new file mode 100644
index 0000000..ac98287
--- /dev/null
+++ b/tools/elementwiseCache/dataStructures/keys.py
@@ -0,0 +1,17 @@
+# -*- coding: utf-8 -*-
+CT = '>CT<'  # constant: the data are the same in all elements
+NC = '>NC<'  # not cached
+
+
+def combine_keys(keys):
+    """The cache key of something computed from operands of cache keys `keys`.
+
+    Two sequences of keys of the same operands are combined into the same key only if they are equal. So we cannot
+    simply join them: ('1', '11') and ('11', '1') are different.
+    """
+    if any(NC in key for key in keys):
+        return NC
+    elif all(key == CT for key in keys):
+        return CT
+    else:
+        return ''.join(f'{len(key)}:{key}' for key in keys)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index a381481..108f4c1 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 22:55
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ColVec_PRIVATE_sum(FrozenOnly):
@@ -26,4 +27,4 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._cv_:
             KEY.append(v._KG_(basic_unit))
-        return ''.join(KEY)
+        return combine_keys(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index 8d66937..129d38c 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___CV_ADD___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return combine_keys([self._v1_._KG_(i), self._v2_._KG_(i)])
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 40e4875..23bd2a2 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___CV_SUB___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return combine_keys([self._v1_._KG_(i), self._v2_._KG_(i)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 8a59fc1..6b5dbf6 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 23:22
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class SpaMat_PRIVATE_sum(FrozenOnly):
@@ -25,4 +26,4 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._Ms_:
             KEY.append(v._KG_(basic_unit))
-        return ''.join(KEY)
+        return combine_keys(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index 8c5dcc6..157f0cc 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___ADD___(FrozenOnly):
@@ -12,4 +13,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return combine_keys([self._ewc1_._KG_(item), self._ewc2_._KG_(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 47bf42c..c668337 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___MATMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return combine_keys([self._ewc1_._KG_(item), self._ewc2_._KG_(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index bd48478..d2e3a55 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___SUB___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return combine_keys([self._ewc1_._KG_(item), self._ewc2_._KG_(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index 5153e84..bb02f69 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___VECMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return self._ewc_S_._KG_(item) + self._ewc_V_._KG_(item)
+        return combine_keys([self._ewc_S_._KG_(item), self._ewc_V_._KG_(item)])
diff --git a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
index f27256d..103a268 100644
--- a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___BMAT_HELPER_KeyGenerator___:
@@ -20,21 +21,13 @@ class ___BMAT_HELPER_KeyGenerator___:
         if self._check_repeated_:
             self._check_repeated_ = False
 
-            key_out = ''
-            for vb in self.valid_block:
-                key_out += vb._KG_(item)
+            key_out = combine_keys([vb._KG_(item) for vb in self.valid_block])
 
             if self._NC_ in key_out:
                 self._IS_NC_ = True
 
             else:
-                temp = (key_out + key_out).find(key_out, 1, -1)
-                if temp != -1:
-                    repeated = key_out[:temp]
-                else:
-                    repeated = ''
-
-                if repeated == self._CT_:
+                if key_out == self._CT_:
                     self._IS_CT_ = True
                 else:
                     pass
@@ -48,8 +41,6 @@ class ___BMAT_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.valid_block:
-                key_out += vb._KG_(item)
+            key_out = combine_keys([vb._KG_(item) for vb in self.valid_block])
 
         return key_out
diff --git a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
index 0deda74..8577af4 100644
--- a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.keys import combine_keys
 
 
 class ___concatenate_HELPER_KeyGenerator___:
@@ -16,21 +17,13 @@ class ___concatenate_HELPER_KeyGenerator___:
         if self._check_repeated_:
             self._check_repeated_ = False
 
-            key_out = ''
-            for vb in self.vectors:
-                key_out += vb._KG_(i)
+            key_out = combine_keys([vb._KG_(i) for vb in self.vectors])
 
             if self._NC_ in key_out:
                 self._IS_NC_ = True
 
             else:
-                temp = (key_out + key_out).find(key_out, 1, -1)
-                if temp != -1:
-                    repeated = key_out[:temp]
-                else:
-                    repeated = ''
-
-                if repeated == self._CT_:
+                if key_out == self._CT_:
                     self._IS_CT_ = True
                 else:
                     pass
@@ -42,8 +35,6 @@ class ___concatenate_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.vectors:
-                key_out += vb._KG_(i)
+            key_out = combine_keys([vb._KG_(i) for vb in self.vectors])
 
         return key_out
-- 
2.43.0


From 469b9b0a70d163de0ede1b30c0d956dfb678ad8e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 22/75] fix: the pseudo sparsity is the mean over the elements,
 however they are distributed

---
 .../dataStructures/objects/sparseMatrix/condition/main.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
index e1cd037..bfb054e 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
@@ -33,18 +33,12 @@ class EWC_SpaMat_Condition(FrozenOnly):
 
             local_sparsity.append(1 - spa_mat.nnz / np.prod(spa_mat.shape))
 
-        if len(local_sparsity) > 0:
-            local_sparsity = np.sum(local_sparsity) / len(local_sparsity)
-        else:
-            local_sparsity = None
-
         local_sparsity = COMM.gather(local_sparsity, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
             valid = list()
             for ls in local_sparsity:
-                if ls is not None:
-                    valid.append(ls)
+                valid.extend(ls)
 
             local_sparsity = sum(valid) / len(valid)
 
-- 
2.43.0


From 102df9d402efcb1b435ac727b36527056d4571be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 23/75] fix: boundary-wise BC of a 0-local-trace form asked to
 update the cochain, which it refuses

---
 objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
index 27d11d8..388f907 100644
--- a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
+++ b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
@@ -64,7 +64,7 @@ class _3dCSCG_0LocalTrace_Discretize(FrozenOnly):
 
                 elif SELF.BC.CF.ftype == "boundary-wise":
                     # we will always not update cochain & and always set target to be "BC"
-                    return self._boundary_wise_(target='BC')
+                    return self._boundary_wise_(update_cochain=False, target='BC')
 
                 elif SELF.BC.CF.ftype == "trace-element-wise":
                     return self._trace_element_wise_(update_cochain=False, target='BC')
-- 
2.43.0


From 40777536c7fef77541cceaeabdec040eaaa1880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:52 +0000
Subject: [PATCH 24/75] fix: BC interpretations were cached by the id of
 objects that may be gone (ids are reused)

---
 .../base/BC/interpret/helpers/boundary_cochain.py    | 12 ++++++------
 .../BC/interpret/helpers/boundary_integration.py     |  4 ++--
 objects/CSCG/base/forms/base/BC/interpret/local.py   |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
index 7e35218..aea3924 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
@@ -19,9 +19,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
         self._elements_ = f.mesh.elements
         self.___empty___ = csc_matrix((f.num.basis, 1))
         self.___boundary_cochain_cache___ = None
-        self._representing_CF_ = -1  # will store id, so use int
+        self._representing_CF_ = None
         self._representing_ct_ = None
-        self._representing_boundaries_ = -1  # will store id, so use int
+        self._representing_boundaries_ = None
         self._freeze_self_()
 
     def ___Pr_make_mesh_element_wise_boundary_local_dofs___(self):
@@ -61,11 +61,11 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             raise NotImplementedError(f"indicator={indicator} is not implemented.")
 
         # we update representing information below.
-        self._representing_CF_ = id(self._f_.BC.CF)
+        self._representing_CF_ = self._f_.BC.CF
         # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
         self._representing_ct_ = self._f_.BC.CF.current_time
         # we update representing boundaries as well
-        self._representing_boundaries_ = id(self._f_.BC.boundaries)
+        self._representing_boundaries_ = self._f_.BC._involved_element_parts_
 
     @property
     def ___Pr_BcCo___(self):
@@ -73,9 +73,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             self.___Pr_make_mesh_element_wise_boundary_local_dofs___()
         else:
             # the following check is OK, since when CF is None, we will never call `___Pr_BcCo___`.
-            if self._representing_CF_ == id(self._f_.BC.CF) and \
+            if self._representing_CF_ is self._f_.BC.CF and \
                     self._representing_ct_ == self._f_.BC.CF.current_time and \
-                    self._representing_boundaries_ == id(self._f_.BC.boundaries):
+                    self._representing_boundaries_ is self._f_.BC._involved_element_parts_:
                 # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
                 pass  # as nothing has changed, so we use the cached instance.
             else:
diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
index 054e8ea..45e4e82 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
@@ -64,7 +64,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
 
     def ___Pr_renew_RM___(self):
         """"""
-        if self._representing_boundaries_ == id(self._f_.BC.boundaries):
+        if self._representing_boundaries_ is self._f_.BC._involved_element_parts_:
             return self._rm_   # no need to renew the reconstruction matrices
 
         else:   # renew rm
@@ -73,7 +73,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
                 *self.quad_nodes, element_range=self._f_.BC._involved_element_parts_
             )
 
-            self._representing_boundaries_ = id(self._f_.BC.boundaries)
+            self._representing_boundaries_ = self._f_.BC._involved_element_parts_
             self._rm_ = rm
             return rm
 
diff --git a/objects/CSCG/base/forms/base/BC/interpret/local.py b/objects/CSCG/base/forms/base/BC/interpret/local.py
index dbcd414..8e0f087 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/local.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/local.py
@@ -8,7 +8,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___CSCG_global_BC_itp_Local_dofs_cache___ = {
-    'iEP_ID': -1,
+    'iEP': None,  # the object itself (not its id): an id can be reused once the object is gone.
     'dofs': dict(),
 }
 
@@ -33,7 +33,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEP = self._f_.BC._involved_element_parts_
 
-        if id(iEP) == ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID']:
+        if iEP is ___CSCG_global_BC_itp_Local_dofs_cache___['iEP']:
             self._dofs_ = ___CSCG_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -53,7 +53,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID'] = id(iEP)
+            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP'] = iEP
             ___CSCG_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
-- 
2.43.0


From aad92b867e45cf71b71aa0748af95d05d3338741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:57 +0000
Subject: [PATCH 25/75] fix: BC interpretation of a dual form did not follow
 changes of the function or of its time

---
 objects/CSCG/base/ADF/base/BC/interpret/main.py | 10 ++--------
 objects/CSCG/base/ADF/base/BC/main.py           |  1 -
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/objects/CSCG/base/ADF/base/BC/interpret/main.py b/objects/CSCG/base/ADF/base/BC/interpret/main.py
index 8059b0a..ea2ad6b 100644
--- a/objects/CSCG/base/ADF/base/BC/interpret/main.py
+++ b/objects/CSCG/base/ADF/base/BC/interpret/main.py
@@ -15,15 +15,9 @@ class CSCG_AFORM_BC_Interpret(FrozenOnly):
         """"""
         self._adf_ = adf
         self._mesh_ = adf.mesh
-        self._local_ = None
         self._freeze_self_()
 
-    def RESET_cache(self):
-        self._local_ = None
-
     @property
     def local(self):
-        """We interpret the BC in local elements."""
-        if self._local_ is None:
-            self._local_ = CSCG_AFORM_BC_Interpret_Local(self._adf_)
-        return self._local_
+        """We interpret the BC in local elements. It is not cached as `BC.CF` (of the prime form) may change."""
+        return CSCG_AFORM_BC_Interpret_Local(self._adf_)
diff --git a/objects/CSCG/base/ADF/base/BC/main.py b/objects/CSCG/base/ADF/base/BC/main.py
index 51fdcb7..64b2746 100644
--- a/objects/CSCG/base/ADF/base/BC/main.py
+++ b/objects/CSCG/base/ADF/base/BC/main.py
@@ -34,7 +34,6 @@ class CSCG_ADForm_BC(FrozenOnly):
         for i, bn in enumerate(bns):
             assert bn in BNS, f"boundary names [{i}] = {bn} is not a valid boundary name."
         self.___Pr_parse_involved_element_parts___(bns)
-        self.interpret.RESET_cache()  # reset current interpretations.
         self._boundaries_ = bns
 
 
-- 
2.43.0


From e36549dc5138e0da09ff8218bcc95617827507f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 26/75] fix: strong BC rows kept contributions of elements
 touching the boundary only by a node or an edge

---
 .../objects/columnVector/customize.py         | 13 +++++++++
 .../objects/sparseMatrix/customize.py         | 18 ++++++++++--
 .../gathering/regular/chain_matrix/do/find.py | 28 +++++++++++++++++++
 3 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
index e72bb50..1d47926 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
@@ -118,6 +118,15 @@ class SpaVec_Customize(FrozenOnly):
                                      f"now its shape is {RETURN.shape}."
         return RETURN
 
+    def ___PRIVATE_clear_same_dofs_elsewhere___(self, GM, i, dofs, start_row):
+        """When local `dofs` of block #i are set, the same dofs in other elements must contribute nothing."""
+        elsewhere = GM.do.find.same_dofs_elsewhere(i, dofs)
+        for e in elsewhere:
+            if e not in self.___customizations___:
+                self.___customizations___[e] = list()
+            rows = elsewhere[e] + start_row
+            self.___customizations___[e].append(('slest', (rows, np.zeros(len(rows)))))
+
     def set_entries_according_to(self, i, BC_itp, cochain_itp=None, AS='local'):
         """
 
@@ -173,6 +182,8 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, ENTRIES)))
 
+            self.___PRIVATE_clear_same_dofs_elsewhere___(GM, i, dofs, start_row)
+
         else:
             raise NotImplementedError()
 
@@ -224,6 +235,8 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, CONSTANT)))
 
+            self.___PRIVATE_clear_same_dofs_elsewhere___(GM, i, dofs, start_row)
+
         else:
             raise NotImplementedError(f"interpret={AS} not implemented.")
 
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
index 2b40a93..9ae3d07 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
@@ -318,8 +318,10 @@ class SpaMat_Customize(FrozenOnly):
 
         if AS == 'local':
             LDF = interpret.local.dofs
+            # in other elements, the same rows must contribute nothing.
+            elsewhere = self._spa_mat_.gathering_matrices[0].do.find.same_dofs_elsewhere(i, LDF)
 
-            if len(LDF) == 0:
+            if len(LDF) == 0 and len(elsewhere) == 0:
                 pass
             else:
                 GM = self._spa_mat_.gathering_matrices[0]
@@ -339,6 +341,11 @@ class SpaMat_Customize(FrozenOnly):
 
                     self.___customizations___[e].append(('ilrs', local_dofs))
 
+                for e in elsewhere:
+                    if e not in self.___customizations___:
+                        self.___customizations___[e] = list()
+                    self.___customizations___[e].append(('clrs', elsewhere[e] + start))
+
         else:
             raise Exception(f"Cannot identify global rows through"
                             f" interpret interpreted"
@@ -397,8 +404,10 @@ class SpaMat_Customize(FrozenOnly):
             LDF_row = row_itp.local.dofs
             LDF_col = col_itp.local.dofs
             assert len(LDF_col) == len(LDF_row), f"row_dofs and col_dofs dis-match in elements."
+            # in other elements, the same rows must contribute nothing.
+            elsewhere = self._spa_mat_.gathering_matrices[0].do.find.same_dofs_elsewhere(i, LDF_row)
 
-            if len(LDF_row) == 0:
+            if len(LDF_row) == 0 and len(elsewhere) == 0:
                 pass
 
             else:
@@ -430,6 +439,11 @@ class SpaMat_Customize(FrozenOnly):
                     self.___customizations___[e].append(
                         ('ilrsac', (row_local_dofs, col_local_dofs)))
 
+                for e in elsewhere:
+                    if e not in self.___customizations___:
+                        self.___customizations___[e] = list()
+                    self.___customizations___[e].append(('clrs', elsewhere[e] + start_row))
+
         else:
             raise Exception(f"Cannot off-diagonally identify global rows through "
                             f"interpret interpreted "
diff --git a/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py b/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
index c815f6d..eecbfdf 100644
--- a/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
+++ b/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
@@ -2,6 +2,7 @@
 
 from components.freeze.main import FrozenOnly
 from functools import lru_cache
+from root.config.main import COMM
 from components.decorators.all import accepts
 import numpy as np
 
@@ -186,6 +187,33 @@ class ___Chain_Gathering_Matrix_FIND___(FrozenOnly):
             else:
                 return mesh_elements, local_indices
 
+    def same_dofs_elsewhere(self, i, local_dofs):
+        """Find the local dofs of GMs[i] that are, globally, the same dofs as those of `local_dofs` (of any core)
+        but that are not among `local_dofs`, for example, the corner dof in an element that touches a boundary
+        with nothing but this corner. It must be called in all cores.
+
+        :param i: GMs[i]
+        :param dict local_dofs: {element: local dofs of GMs[i] in this element}
+        :return: A dict whose keys are (local) elements and whose values are arrays of local dofs (of GMs[i]).
+        """
+        GM = self._CGM_.GMs[i]
+        dofs = set()
+        for e in local_dofs:
+            dofs.update(GM[e].full_vector[np.array(local_dofs[e], dtype=int)].tolist())
+        dofs = np.array(list(set().union(*COMM.allgather(dofs))), dtype=int)
+
+        elsewhere = dict()
+        if len(dofs) == 0:
+            return elsewhere
+        for e in GM:
+            same = np.isin(GM[e].full_vector, dofs)
+            if e in local_dofs:
+                same[np.array(local_dofs[e], dtype=int)] = False
+            if same.any():
+                elsewhere[e] = np.nonzero(same)[0]
+
+        return elsewhere
+
     def elements_and_local_indices_of_dofs(self, dofs):
         """"""
         mesh_elements = dict()
-- 
2.43.0


From fea7eb7d0ffc185a4bbeb48dff0c82ce504c423a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:06 +0000
Subject: [PATCH 27/75] fix: global cochain of trace forms used an attribute
 that trace forms do not have

---
 objects/CSCG/base/forms/trace/cochain/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index 11caafb..a7f87ce 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -114,7 +114,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         Will raise error if cochain is not full.
         """
         GM = self._tf_.numbering.gathering
-        globe = lil_matrix((1, self._tf_.global_num_dofs))
+        globe = lil_matrix((1, self._tf_.num.global_dofs))
         for i in GM:  # go through all local elements
             globe[0, GM[i].full_vector] = self.local[i]
 
@@ -122,7 +122,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         GLOBE = COMM.gather(globe, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            measure = np.zeros(self._tf_.global_num_dofs, dtype=int)
+            measure = np.zeros(self._tf_.num.global_dofs, dtype=int)
             for G in GLOBE:
                 indices = G.indices
                 measure[indices] += 1
@@ -133,7 +133,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
             globe = csr_matrix(_____).T
 
         else:
-            globe = csc_matrix((self._tf_.global_num_dofs, 1))
+            globe = csc_matrix((self._tf_.num.global_dofs, 1))
 
         GDV = DistributedVector(globe)
         assert GDV.whether.master_dominating
@@ -142,7 +142,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
     @globe.setter
     def globe(self, globe):
         if globe.__class__.__name__ == 'DistributedVector':
-            assert globe.V.shape == (self._tf_.global_num_dofs, 1), "globe cochain shape wrong."
+            assert globe.V.shape == (self._tf_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
             if globe.whether.master_dominating:
                 # no need to gather
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._tf_.global_num_dofs,))
+                    VV = np.empty((self._tf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
@@ -168,7 +168,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                         # noinspection PyUnboundLocalVariable
                         to_be_sent = spspa.csc_matrix(
                             (VV[lr[0]:lr[1]], range(lr[0], lr[1]), [0, lr[1]-lr[0]]),
-                            shape=(self._tf_.global_num_dofs, 1))
+                            shape=(self._tf_.num.global_dofs, 1))
                     TO_BE_SENT.append(to_be_sent)
             else:
                 TO_BE_SENT = None
-- 
2.43.0


From 7e27b52ec0e62c3a66a253d1f19354e2be30b22b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:06 +0000
Subject: [PATCH 28/75] fix: setting a global cochain left entries that the
 distributed vector does not store (zeros) uninitialized

---
 objects/CSCG/base/forms/localTrace/cochain/main.py | 2 +-
 objects/CSCG/base/forms/standard/cochain/main.py   | 2 +-
 objects/CSCG/base/forms/trace/cochain/main.py      | 2 +-
 objects/miUsGrid/base/form/standard/cochain.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/base/forms/localTrace/cochain/main.py b/objects/CSCG/base/forms/localTrace/cochain/main.py
index ca9db24..3ae89cd 100644
--- a/objects/CSCG/base/forms/localTrace/cochain/main.py
+++ b/objects/CSCG/base/forms/localTrace/cochain/main.py
@@ -84,7 +84,7 @@ class CSCG_LocalTrace_CochainBase(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._ltf_.num.global_dofs,))
+                    VV = np.zeros((self._ltf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/standard/cochain/main.py b/objects/CSCG/base/forms/standard/cochain/main.py
index 2caff24..3c95e55 100644
--- a/objects/CSCG/base/forms/standard/cochain/main.py
+++ b/objects/CSCG/base/forms/standard/cochain/main.py
@@ -168,7 +168,7 @@ class CSCG_Standard_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index a7f87ce..d4e6652 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._tf_.num.global_dofs,))
+                    VV = np.zeros((self._tf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/miUsGrid/base/form/standard/cochain.py b/objects/miUsGrid/base/form/standard/cochain.py
index 5362fcf..2b37f70 100644
--- a/objects/miUsGrid/base/form/standard/cochain.py
+++ b/objects/miUsGrid/base/form/standard/cochain.py
@@ -89,7 +89,7 @@ class miUsGrid_SF_CochainBase(FrozenOnly):
                 V = glb.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
-- 
2.43.0


From f17b0c6cb4e53cdabac5377b4e62d8ceb7e69787 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 29/75] fix: nonempty_rows/columns of a global matrix were
 always empty for the matching format

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1424685..1d9ae84 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -88,7 +88,7 @@ class GlobalMatrix(FrozenOnly):
         """The columns have non-zero."""
         if self.mtype == 'csc':
             _ = np.diff(self.M.indptr) != 0  # the columns have non-zero values.
-            hnzc = np.argwhere(_ is True).ravel()
+            hnzc = np.argwhere(_).ravel()
         elif self.mtype == 'csr':
             hnzc = self.M.indices
             hnzc = sorted(list(set(hnzc)))
@@ -101,7 +101,7 @@ class GlobalMatrix(FrozenOnly):
         """The rows have non-zero."""
         if self.mtype == 'csr':
             _ = np.diff(self.M.indptr) != 0  # the rows have non-zero values.
-            hnzr = np.argwhere(_ is True).ravel()
+            hnzr = np.argwhere(_).ravel()
         elif self.mtype == 'csc':
             hnzr = self.M.indices
             hnzr = sorted(list(set(hnzr)))
-- 
2.43.0


From fb036d4de46b1561f5487038684e4f359629f319 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 30/75] fix: column-major check of a global matrix always
 passed (returned a tuple)

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1d9ae84..407a1f1 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -424,7 +424,7 @@ class GlobalMatrix(FrozenOnly):
         else:
             ToF = None
         ToF = COMM.bcast(ToF, root=MASTER_RANK)
-        return ToF,
+        return ToF
 
     def ___PRIVATE_self_regularity_checker___(self):
         """"""
-- 
2.43.0


From 336cda6fbe4663f3610359c0b4a4dcae6b52687e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 31/75] fix: gathering a master-dominating distributed vector
 to another core returned zeros

---
 .../dataStructures/vectors/distributed/do.py           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
index e5967fe..2df7ed3 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
@@ -23,11 +23,11 @@ class DistributedVectorDo(FrozenOnly):
         """
         if core is None:
             core = MASTER_RANK
-        if self._v_.whether.master_dominating:
-            if RANK == core:
-                return self._v_.V.toarray()[:, 0]
-            else:
-                return None
+        if core == MASTER_RANK and self._v_.whether.master_dominating:
+            V = self._v_.V.toarray()[:, 0] if RANK == core else None
+            if clean_local:
+                self._v_._V_ = None
+            return V
         else:
             GV = COMM.gather(self._v_.V, root=core)
             if clean_local:
-- 
2.43.0


From 3b859155cdffb1652eb8f0828c0fcbc1578ffb67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 32/75] fix: gathering a global matrix changed the format of
 the local matrices of the other cores

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/do.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
index 5e0926e..d253e70 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/do.py
@@ -68,7 +68,7 @@ class ___GM_DO___(FrozenOnly):
                 if RANK == core:
                     SELF._M_ = np.sum(M)
                 else:
-                    SELF._M_ = spspa.csr_matrix(SELF.shape)
+                    SELF._M_ = SELF.M.__class__(SELF.shape)
             else:
                 assert core == MASTER_RANK, "This routine only work for root=master yet!"
                 tree = TREE(2)
@@ -91,7 +91,7 @@ class ___GM_DO___(FrozenOnly):
                         COMM.send(ST, **Hi[1])
                         if ST == 1:
                             COMM.send(SELF.M, **Hi[1])
-                            SELF._M_ = spspa.csr_matrix(SELF.shape)
+                            SELF._M_ = SELF.M.__class__(SELF.shape)
                         else:
                             for t in range(ST):
                                 if SELF.mtype == 'csr':
@@ -101,7 +101,7 @@ class ___GM_DO___(FrozenOnly):
                                 else:
                                     raise Exception()
                                 COMM.send(tbs, **Hi[1])
-                            SELF._M_ = spspa.csr_matrix(SELF.shape)
+                            SELF._M_ = SELF.M.__class__(SELF.shape)
 
                     elif Hi[0] == 'recv':
                         RT = COMM.recv(**Hi[1])
-- 
2.43.0


From 2f213b0e4b8cd0ea318f11ac6ab8104fcdbc8fd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 33/75] fix: iterator refused a shut-down reason given as str

---
 tools/iterators/base/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index 5f85da7..92972fd 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -247,7 +247,7 @@ class Iterator(FrozenClass):
                 # noinspection PyAttributeOutsideInit
                 self.___shut_down_reason___ = ''
 
-        assert shut_down in (1, 0, True, False), "Now, shut_down must be 1, 0, True or False."
+        assert self._shut_down_ in (1, 0, True, False), "Now, shut_down must be 1, 0, True or False."
 
         if shut_down:
             assert isinstance(self.___shut_down_reason___, str), "Shut down reason need to be str, now is not!"
-- 
2.43.0


From 158174a5c6450eabde0ec20eeb1a6ffa4ed57603 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 34/75] fix: resuming an iterator changed recorded results in
 the last digit

---
 tools/iterators/base/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index 92972fd..9dd66fd 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -214,7 +214,7 @@ class Iterator(FrozenClass):
         """
         FORMAT = fileName.split('.')[-1]
         if FORMAT == 'csv':
-            self._RDF_ = pd.read_csv(fileName, index_col=0)
+            self._RDF_ = pd.read_csv(fileName, index_col=0, float_precision='round_trip')
         else:
             raise NotImplementedError(f'Can only read .csv file, now get .{FORMAT} file')
 
@@ -448,7 +448,7 @@ class Iterator(FrozenClass):
         COMM.barrier()  # this is important to make the program safe.
         if RANK == MASTER_RANK:
             if filename[-4:] == '.csv':
-                return pd.read_csv(filename, index_col=0)
+                return pd.read_csv(filename, index_col=0, float_precision='round_trip')
 
             else:
 
-- 
2.43.0


From a4936440c7fbf384681d62906110e4e09e5cf81c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 35/75] fix: interruption while saving the iterator results
 left an incomplete file, resumed with wrong results

---
 tools/iterators/base/main.py       | 15 +++++++++++----
 tools/iterators/base/monitor/do.py | 12 ++++++------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index 9dd66fd..8e1b8ff 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -218,6 +218,13 @@ class Iterator(FrozenClass):
         else:
             raise NotImplementedError(f'Can only read .csv file, now get .{FORMAT} file')
 
+    def ___PRIVATE_save_RDF___(self, fileName):
+        """Save the ``RDF`` to ``fileName``. We write a temporary file first and then replace the old one such that
+        an interruption during the saving never leaves an incomplete (thus un-resumable) file.
+        """
+        self.RDF.to_csv(fileName + '.tmp', header=True)
+        os.replace(fileName + '.tmp', fileName)
+
     @property
     def shut_down(self):
         """(bool) Return ``True`` if the iterator is shut_down.
@@ -396,25 +403,25 @@ class Iterator(FrozenClass):
 
                 # noinspection PyBroadException
                 try:
-                    self.RDF.to_csv(self.monitor.RDF_filename, header=True)
+                    self.___PRIVATE_save_RDF___(self.monitor.RDF_filename)
 
                 except:
                     sleep(2)  # wait 2 seconds
                     # noinspection PyBroadException
                     try:  # try once more
-                        self.RDF.to_csv(self.monitor.RDF_filename, header=True)
+                        self.___PRIVATE_save_RDF___(self.monitor.RDF_filename)
                     except:
                         sleep(2)  # wait 2 seconds
                         # noinspection PyBroadException
                         try:  # try once more
-                            self.RDF.to_csv(self.monitor.RDF_filename, header=True)
+                            self.___PRIVATE_save_RDF___(self.monitor.RDF_filename)
                         except:  # save it to a new file!
                             RDF_filename = self.monitor.RDF_filename[:-4] + \
                                            '__completion_save__' + \
                                            randomStringDigits(10) + \
                                            '.csv'
 
-                            self.RDF.to_csv(RDF_filename, header=True)
+                            self.___PRIVATE_save_RDF___(RDF_filename)
 
                 # when we save RDF, by default we save the iterator itself only for saving some info (not for resume).
                 filename = RDF_filename
diff --git a/tools/iterators/base/monitor/do.py b/tools/iterators/base/monitor/do.py
index 7019ce2..aa2595d 100644
--- a/tools/iterators/base/monitor/do.py
+++ b/tools/iterators/base/monitor/do.py
@@ -117,11 +117,11 @@ class IteratorMonitorDo(FrozenOnly):
                 if gap_time > monitor.___auto_save_time___ or self._do_first_auto_save_:
                     try:
                         # if PermissionError, we do not stop the iteration
-                        monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                        monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                     except:  # wait 3 seconds
                         sleep(3)
                         try:  # try once more
-                            monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                            monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                         except:  # just skip it
                             pass
                     monitor._last_auto_save_time_ = time()
@@ -138,11 +138,11 @@ class IteratorMonitorDo(FrozenOnly):
                    self._do_first_auto_save_:  # we always have a look at the first iteration.
                     # important. When read from csv, it is very fast, so we do not save.
                     try:  # if PermissionError, we do not stop the iteration
-                        monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                        monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                     except:  # wait 3 seconds
                         sleep(3)
                         try:  # try once moe
-                            monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                            monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                         except:  # just skip it
                             pass
                     monitor._last_auto_save_time_ = time()
@@ -158,11 +158,11 @@ class IteratorMonitorDo(FrozenOnly):
                 else:
                     try:
                         # if PermissionError, we do not stop the iteration
-                        monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                        monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                     except:  # wait 3 seconds
                         sleep(3)
                         try:  # try once more
-                            monitor._iterator_.RDF.to_csv(monitor.RDF_filename, header=True)
+                            monitor._iterator_.___PRIVATE_save_RDF___(monitor.RDF_filename)
                         except:  # just skip it
                             pass
 
-- 
2.43.0


From d374e2531e6742caa91290e731704b126d81bd6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 36/75] fix: SimpleIterator refused or over-ran configurations
 because of rounding

---
 tools/iterators/simple.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/iterators/simple.py b/tools/iterators/simple.py
index 36d5e5f..0d1f887 100644
--- a/tools/iterators/simple.py
+++ b/tools/iterators/simple.py
@@ -50,7 +50,11 @@ class SimpleIterator(Iterator):
                 if max_time is not None:
                     assert isinstance(max_time, (int, float)) and max_time > self.t0, \
                         " <Simple> : max_time={} wrong!".format(max_time)
-                    self._max_steps_ = int(np.ceil((max_time - self.t0) / self.dt))
+                    steps = (max_time - self.t0) / self.dt
+                    if np.isclose(steps, round(steps), rtol=1e-12, atol=1e-12) and round(steps) > 0:
+                        self._max_steps_ = round(steps)  # ceil may give one more because of the rounding error.
+                    else:
+                        self._max_steps_ = int(np.ceil(steps))
                 else:
                     self._max_steps_ = 9999999
                 self._max_time_ = self.t0 + self.dt * self.max_steps
@@ -68,4 +72,4 @@ class SimpleIterator(Iterator):
 
         assert self.dt >= 0, " <Simple> : dt wrong!"
         assert isinstance(self.max_steps, int) and self.max_steps > 0, " <Simple> "
-        assert self.t0 + self.dt * self.max_steps == self.max_time, " <Simple> : max_time wrong!"
+        assert np.isclose(self.t0 + self.dt * self.max_steps, self.max_time), " <Simple> : max_time wrong!"
-- 
2.43.0


From 7ef1323847e4dd91d3b24f41afbada894abc3554 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 37/75] fix: a second iterate of a matrix-input runner skipped
 inputs and wrote to the file of the first

---
 tools/legacy/serialRunners/_runner_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 5e18274..f0940b7 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -294,6 +294,8 @@ class Runner(FrozenClass):
         """
         print("-<{}>-<total iterations> : {}.".format(self.__class__.__name__, self.num_iterations), flush=True)
         self.___initialize_dataframe___()
+        self._computed_pool_ = ()
+        self._readwritefilename_ = None
         if writeto is None:
             return
         self._readwritefilename_ = writeto
-- 
2.43.0


From 779f0ace0892686a5d3fc23de605543bad959e0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 38/75] fix: an interrupted last row of a runner file was
 accepted and the next row appended to it

---
 tools/legacy/serialRunners/_runner_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index f0940b7..3298eb7 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -254,6 +254,7 @@ class Runner(FrozenClass):
             #----------------------------------------------------------------------
             while 1:
                 try:
+                    assert contents[i][-1] == '\n'  # otherwise, the writing of this line was interrupted.
                     Di = contents[i].split()
                     assert len(Di) == 1 + len(self.input_names) + len(self.output_names) + 1 + 3
                     # 1: index; +1: '|'; +3: 'ITC', 'TTC', 'ERT'
-- 
2.43.0


From 62b4da218f9096583da7811b951a83c0173578bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 39/75] fix: interruption while writing the header or resuming
 damaged the file of a matrix-input runner

---
 tools/legacy/serialRunners/_runner_.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 3298eb7..b779a50 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -7,6 +7,7 @@ Created on Thu Apr 11 10:36:36 2019
 Aerodynamics, AE
 TU Delft
 """
+import os
 import pickle
 import types
 import socket
@@ -302,16 +303,19 @@ class Runner(FrozenClass):
         self._readwritefilename_ = writeto
         try:
             I, contents = self.___readcontents___(writeto)
-            with open(self.readwritefilename, 'w') as f: 
+            # write a temporary file first, so an interruption never damages the existing file.
+            with open(self.readwritefilename + '.tmp', 'w') as f:
                 for j in range(I):
                     f.write(contents[j])
+            os.replace(self.readwritefilename + '.tmp', self.readwritefilename)
         except FileNotFoundError: # `writeto` is not None, and we do not find `writeto`
             # we do initializing the writing file.
             self.___initial_writing___()
             
     def ___initial_writing___(self):
         """ Initialize the writing process."""
-        with open(self.readwritefilename, 'w') as f:
+        # write a temporary file first, so an interruption never leaves a file with an incomplete header.
+        with open(self.readwritefilename + '.tmp', 'w') as f:
             # we initialize the writing field..........
             f.write('<Runner>-<{}>-<task name: {}>\n'.format(self.__class__.__name__, self.task_name))
             f.write('{}\n'.format(MyTimer.current_time()))
@@ -333,6 +337,7 @@ class Runner(FrozenClass):
             f.write('ERT(W)       \n')
             f.write(''+'---------------' + '-'*3*25 + '-'*25*len(self._output_names_) + 
                     '|-'+'-'*15 + '-'*15 + '-'*13 + '\n')
+        os.replace(self.readwritefilename + '.tmp', self.readwritefilename)
             
     def ___update_rdf___(self, index, inputs, outputs, ITC, TTC, ERT, show_progress=True):
         """ Update `self._rdf_` after each iteration."""
-- 
2.43.0


From 726308e017a739aa935bd5ce9980fbff5f7c7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 40/75] fix: read failed for files in which several objects
 share a mesh or space

---
 root/read/helpers/_2dCSCG/mesh.py  | 1 +
 root/read/helpers/_2dCSCG/space.py | 1 +
 root/read/helpers/_3dCSCG/mesh.py  | 1 +
 root/read/helpers/_3dCSCG/space.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/root/read/helpers/_2dCSCG/mesh.py b/root/read/helpers/_2dCSCG/mesh.py
index e61bc1a..7434624 100644
--- a/root/read/helpers/_2dCSCG/mesh.py
+++ b/root/read/helpers/_2dCSCG/mesh.py
@@ -18,6 +18,7 @@ def ___restore__2dCSCG_Mesh___(parameters, mesh_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = dict(parameters)  # other objects of the same file may share this dict.
         assert parameters.pop('type') == '_2dCSCG_Mesh'
         ID = parameters.pop('ID')
         element_layout = parameters.pop('element_layout')
diff --git a/root/read/helpers/_2dCSCG/space.py b/root/read/helpers/_2dCSCG/space.py
index ccb8542..c89a6ed 100644
--- a/root/read/helpers/_2dCSCG/space.py
+++ b/root/read/helpers/_2dCSCG/space.py
@@ -16,6 +16,7 @@ def ___restore__2dCSCG_Space___(parameters, space_cache):
     else:
         raise Exception()
     if DO_meshing:
+        parameters = dict(parameters)  # other objects of the same file may share this dict.
         assert parameters.pop('type') == '_2dCSCG_Space'
         ID = parameters.pop('ID')
         inputs = parameters.pop('inputs')
diff --git a/root/read/helpers/_3dCSCG/mesh.py b/root/read/helpers/_3dCSCG/mesh.py
index 808aacc..9569e00 100644
--- a/root/read/helpers/_3dCSCG/mesh.py
+++ b/root/read/helpers/_3dCSCG/mesh.py
@@ -17,6 +17,7 @@ def ___restore__3dCSCG_Mesh___(parameters, mesh_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = dict(parameters)  # other objects of the same file may share this dict.
         assert parameters.pop('type') == '_3dCSCG_Mesh'
         ID = parameters.pop('ID')
         element_layout = parameters.pop('element_layout')
diff --git a/root/read/helpers/_3dCSCG/space.py b/root/read/helpers/_3dCSCG/space.py
index f5f94c8..4542aec 100644
--- a/root/read/helpers/_3dCSCG/space.py
+++ b/root/read/helpers/_3dCSCG/space.py
@@ -17,6 +17,7 @@ def ___restore__3dCSCG_Space___(parameters, space_cache):
         raise Exception()
 
     if DO_meshing:
+        parameters = dict(parameters)  # other objects of the same file may share this dict.
         assert parameters.pop('type') == '_3dCSCG_Space'
         ID = parameters.pop('ID')
         inputs = parameters.pop('inputs')
-- 
2.43.0


From 14093a858924d998ef7cadfc9befb2bc1f8550be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 41/75] fix: a saved 1-edge form could not be read

---
 root/read/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/root/read/main.py b/root/read/main.py
index 3d46e7c..72f2fff 100644
--- a/root/read/main.py
+++ b/root/read/main.py
@@ -96,6 +96,7 @@ def read(filename, read_individuals=None):
                               '_3dCSCG_2Trace',
                               '_3dCSCG_1Trace',
                               '_3dCSCG_0Trace',
+                              '_3dCSCG_1Edge',
                               '_3dCSCG_0Edge'):
                 obj = ___restore__3dCSCG_Form___(obj_para,
                                                  ___CACHE_3dCSCG_mesh___,
-- 
2.43.0


From 15e22d3f43ad5e8cd8f67ccb1e640e583f3a0c01 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 42/75] fix: read returned the cached mesh when arrays in the
 parameters differ after 8 digits

---
 root/read/helpers/_2dCSCG/mesh.py  | 3 ++-
 root/read/helpers/_2dCSCG/space.py | 3 ++-
 root/read/helpers/_3dCSCG/mesh.py  | 3 ++-
 root/read/helpers/_3dCSCG/space.py | 3 ++-
 root/read/helpers/cache_tag.py     | 9 +++++++++
 5 files changed, 17 insertions(+), 4 deletions(-)
 create mode 100644 root/read/helpers/cache_tag.py

diff --git a/root/read/helpers/_2dCSCG/mesh.py b/root/read/helpers/_2dCSCG/mesh.py
index 7434624..0b6323a 100644
--- a/root/read/helpers/_2dCSCG/mesh.py
+++ b/root/read/helpers/_2dCSCG/mesh.py
@@ -1,11 +1,12 @@
 # -*- coding: utf-8 -*-
 
 from objects.CSCG._2d.master import MeshGenerator as _2dCSCG_MeshGenerator
+from root.read.helpers.cache_tag import cache_tag_of
 
 
 def ___restore__2dCSCG_Mesh___(parameters, mesh_cache):
 
-    cache_tag = str(parameters)
+    cache_tag = cache_tag_of(parameters)
 
     if len(mesh_cache) == 0:
         DO_meshing = True
diff --git a/root/read/helpers/_2dCSCG/space.py b/root/read/helpers/_2dCSCG/space.py
index c89a6ed..5f76183 100644
--- a/root/read/helpers/_2dCSCG/space.py
+++ b/root/read/helpers/_2dCSCG/space.py
@@ -1,10 +1,11 @@
 # -*- coding: utf-8 -*-
 
 from objects.CSCG._2d.master import SpaceInvoker as _2dCSCG_SpaceInvoker
+from root.read.helpers.cache_tag import cache_tag_of
 
 
 def ___restore__2dCSCG_Space___(parameters, space_cache):
-    cache_tag = str(parameters)
+    cache_tag = cache_tag_of(parameters)
 
     if len(space_cache) == 0:
         DO_meshing = True
diff --git a/root/read/helpers/_3dCSCG/mesh.py b/root/read/helpers/_3dCSCG/mesh.py
index 9569e00..180dfcb 100644
--- a/root/read/helpers/_3dCSCG/mesh.py
+++ b/root/read/helpers/_3dCSCG/mesh.py
@@ -1,10 +1,11 @@
 # -*- coding: utf-8 -*-
 
 from objects.CSCG._3d.master import MeshGenerator as _3dCSCG_MeshGenerator
+from root.read.helpers.cache_tag import cache_tag_of
 
 
 def ___restore__3dCSCG_Mesh___(parameters, mesh_cache):
-    cache_tag = str(parameters)
+    cache_tag = cache_tag_of(parameters)
 
     if len(mesh_cache) == 0:
         DO_meshing = True
diff --git a/root/read/helpers/_3dCSCG/space.py b/root/read/helpers/_3dCSCG/space.py
index 4542aec..e0eb9bd 100644
--- a/root/read/helpers/_3dCSCG/space.py
+++ b/root/read/helpers/_3dCSCG/space.py
@@ -1,10 +1,11 @@
 # -*- coding: utf-8 -*-
 
 from objects.CSCG._3d.master import SpaceInvoker as _3dCSCG_SpaceInvoker
+from root.read.helpers.cache_tag import cache_tag_of
 
 
 def ___restore__3dCSCG_Space___(parameters, space_cache):
-    cache_tag = str(parameters)
+    cache_tag = cache_tag_of(parameters)
 
     if len(space_cache) == 0:
         DO_meshing = True
diff --git a/root/read/helpers/cache_tag.py b/root/read/helpers/cache_tag.py
new file mode 100644
index 0000000..5cd4158
--- /dev/null
+++ b/root/read/helpers/cache_tag.py
@@ -0,0 +1,9 @@
+# -*- coding: utf-8 -*-
+import sys
+import numpy as np
+
+
+def cache_tag_of(parameters):
+    """A string which identifies the parameters. By default, arrays in it would be rounded or abbreviated."""
+    with np.printoptions(precision=17, threshold=sys.maxsize, floatmode='unique'):
+        return str(parameters)
-- 
2.43.0


From 8670fcf676467b94467567622d339ad8117878df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 43/75] fix: saved parameters followed later changes of the
 lists passed by the user

---
 objects/CSCG/_2d/master.py | 6 +++---
 objects/CSCG/_3d/master.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/objects/CSCG/_2d/master.py b/objects/CSCG/_2d/master.py
index 6d619fd..1aef1bc 100644
--- a/objects/CSCG/_2d/master.py
+++ b/objects/CSCG/_2d/master.py
@@ -49,7 +49,7 @@ class MeshGenerator(FrozenOnly):
         mp['type'] = '_2dCSCG_Mesh'
         mp['ID'] = self._ID_
         mp['domain_parameters'] = deepcopy(self._kwargs_)
-        mp['element_layout'] = element_layout
+        mp['element_layout'] = deepcopy(element_layout)
         mp['EDM'] = EDM
         mesh.___define_parameters___ = mp
         dp = dict()
@@ -127,7 +127,7 @@ class SpaceInvoker(FrozenOnly):
         sp = dict()
         sp['type'] = '_2dCSCG_Space'
         sp['ID'] = self._ID_
-        sp['inputs'] = inputs
+        sp['inputs'] = deepcopy(inputs)
         sp['ndim'] = ndim
         S.___define_parameters___ = sp
         COMM.barrier()  # for safety reason
@@ -166,7 +166,7 @@ class FormCaller(FrozenOnly):
             fp['ID'] = ID
             fp['mesh_parameters'] = deepcopy(self._mesh_.standard_properties.parameters)
             fp['space_parameters'] = deepcopy(self._space_.standard_properties.parameters)
-            fp['kwargs'] = kwargs
+            fp['kwargs'] = deepcopy(kwargs)
             FM.___define_parameters___ = fp
         COMM.barrier()  # for safety reason
         return FM
diff --git a/objects/CSCG/_3d/master.py b/objects/CSCG/_3d/master.py
index 83d9fbf..63d593d 100644
--- a/objects/CSCG/_3d/master.py
+++ b/objects/CSCG/_3d/master.py
@@ -61,7 +61,7 @@ class MeshGenerator(FrozenOnly):
         mp['type'] = '_3dCSCG_Mesh'
         mp['ID'] = self._ID_
         mp['domain_parameters'] = deepcopy(self._kwargs_)
-        mp['element_layout'] = element_layout
+        mp['element_layout'] = deepcopy(element_layout)
         mp['EDM'] = EDM
         mesh.___define_parameters___ = mp
 
@@ -160,7 +160,7 @@ class SpaceInvoker(FrozenOnly):
         sp = dict()
         sp['type'] = '_3dCSCG_Space'
         sp['ID'] = self._ID_
-        sp['inputs'] = inputs
+        sp['inputs'] = deepcopy(inputs)
         sp['ndim'] = ndim
         S.___define_parameters___ = sp
         COMM.barrier()  # for safety reason
-- 
2.43.0


From da3f4c0b29187ad471caf83d538f9b96b874173d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 44/75] fix: non-hybrid 2-trace forms could not be numbered in
 spaces of degree one

---
 objects/CSCG/_3d/spaces/base/internal_local_dofs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objects/CSCG/_3d/spaces/base/internal_local_dofs.py b/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
index b93272f..8f6bf3b 100644
--- a/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
+++ b/objects/CSCG/_3d/spaces/base/internal_local_dofs.py
@@ -51,4 +51,6 @@ class _3dCSCG_Internal_Local_Dofs(FrozenOnly):
             pass
         else:
             I_DOS.append(local_numbering[2][:, :, 1:-1].ravel('F'))
+        if len(I_DOS) == 0:  # all dofs are on the element surface.
+            return np.array([], dtype=int)
         return np.concatenate(I_DOS)
-- 
2.43.0


From 0661a4d0d095134acc558f53aa3b9039e8619f62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:32:58 +0000
Subject: [PATCH 45/75] fix: solvers reported success when the residual had
 hardly decreased

---
 .../regular/GMRES/helpers/components/stop_criterion.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
index 128ec0f..dac9c5d 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
@@ -125,8 +125,8 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
             JUDGE = 3
             JUDGE_explanation = 'diverging'
 
-        elif judge_4:  # reach tol
-            info = 0
+        elif judge_4:  # reach tol; almost no progress, thus the system is not solved.
+            info = ITER
             JUDGE = 4
             JUDGE_explanation = 'reach relative tol'
 
-- 
2.43.0


From 4f207e3467f9f7b64f0e6c3dd4f0256b479a4e7a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 46/75] fix: GMRES and LGMRES returned nan or stopped on the
 master only when the Krylov space was exhausted

---
 .../GMRES/helpers/components/breakdown.py     | 19 +++++++++++++++++++
 .../solvers/regular/GMRES/helpers/mpi_v0.py   |  8 +++++---
 .../solvers/regular/GMRES/helpers/mpi_v1.py   |  8 +++++---
 .../solvers/regular/LGMRES/helpers/mpi_v0.py  |  8 +++++---
 4 files changed, 34 insertions(+), 9 deletions(-)
 create mode 100644 tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/breakdown.py

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/breakdown.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/breakdown.py
new file mode 100644
index 0000000..de4f9bb
--- /dev/null
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/breakdown.py
@@ -0,0 +1,19 @@
+# -*- coding: utf-8 -*-
+"""When the Krylov space is exhausted (the exact solution is in it), the next direction is zero."""
+import numpy as np
+
+
+def ___gmres_normalize___(v, norm, reference=0.):
+    """`v` / `norm`; or zeros when `norm` is zero or only rounding error with respect to `reference`."""
+    if norm <= 1e-14 * reference:
+        return np.zeros_like(v)
+    else:
+        return v / norm
+
+
+def ___gmres_least_squares___(ls_A, ls_b):
+    """Solve the normal equations, which are singular when the Krylov space is exhausted."""
+    try:
+        return np.linalg.solve(ls_A, ls_b)
+    except np.linalg.LinAlgError:
+        return np.linalg.lstsq(ls_A, ls_b, rcond=None)[0]
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
index d7a0ee1..09bbf74 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
@@ -3,6 +3,8 @@ from root.config.main import *
 from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
 from components.exceptions import LinerSystemSolverDivergenceError
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import ___gmres_stop_criterion___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.breakdown import \
+    ___gmres_normalize___, ___gmres_least_squares___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import ___gmres_plot_residuals___
 
 
@@ -90,7 +92,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
 
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = ___gmres_normalize___(VV, beta)
         else:
             beta = None
 
@@ -140,7 +142,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1**2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    v_jp1 = ___gmres_normalize___(hat_v_jp1, Hm[j+1, j], np.sum(AVJ ** 2) ** 0.5)
                 else:
                     del v_jp1
 
@@ -162,7 +164,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
             HmT = Hm.T
             ls_A = HmT @ Hm
             ls_b = HmT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ym = ___gmres_least_squares___(ls_A, ls_b)
             del HmT, ls_A, ls_b
             x0 += ym.T @ Vm
 
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
index 3b3c7ce..39b8bfa 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
@@ -4,6 +4,8 @@ from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import Locall
 from components.exceptions import LinerSystemSolverDivergenceError
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import \
     ___gmres_stop_criterion___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.breakdown import \
+    ___gmres_normalize___, ___gmres_least_squares___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import \
     ___gmres_plot_residuals___
 
@@ -105,7 +107,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = ___gmres_normalize___(VV, beta)
         else:
             beta = None
 
@@ -175,7 +177,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    v_jp1 = ___gmres_normalize___(hat_v_jp1, Hm[j+1, j], np.sum(AVJ ** 2) ** 0.5)
                 else:
                     del v_jp1
 
@@ -199,7 +201,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
             HMT = HM.T
             ls_A = HMT @ HM
             ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ym = ___gmres_least_squares___(ls_A, ls_b)
             # del HMT, ls_A, ls_b
             x0 += ym.T @ Vm
 
diff --git a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
index 3631058..cfabcb4 100644
--- a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
@@ -5,6 +5,8 @@ from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import Locall
 from components.exceptions import LinerSystemSolverDivergenceError
 
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.stop_criterion import ___gmres_stop_criterion___
+from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.breakdown import \
+    ___gmres_normalize___, ___gmres_least_squares___
 from tools.miLinearAlgebra.solvers.regular.GMRES.helpers.components.residual_ploter import ___gmres_plot_residuals___
 
 
@@ -122,7 +124,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = ___gmres_normalize___(VV, beta)
         else:
             beta = None
 
@@ -210,7 +212,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    v_jp1 = ___gmres_normalize___(hat_v_jp1, Hm[j+1, j], np.sum(AVJ ** 2) ** 0.5)
                 else:
                     del v_jp1
 
@@ -234,7 +236,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
             HMT = HM.T
             ls_A = HMT @ HM
             ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ym = ___gmres_least_squares___(ls_A, ls_b)
         else:
             pass
 
-- 
2.43.0


From 4abb3778cd07ff558216c5a4ae6537b73d838369 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 47/75] fix: BiCGSTAB returned nan after an exact step and
 overwrote its shadow residual

---
 .../solvers/regular/BiCGSTAB/helpers/mpi_v0.py  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
index 1e4332d..04bab8e 100644
--- a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
@@ -91,7 +91,7 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_r0_acd_, r0, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            if ITER == 0: hr0 = r0
+            if ITER == 0: hr0 = r0.copy()  # `r0` is reused as receive buffer.
             beta = np.sum(r0 ** 2) ** 0.5
         else:
             beta = 0
@@ -117,8 +117,13 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
 
         if RANK == MASTER_RANK:
             rho1 = np.sum(hr0 * r0)
-            beta = (rho1/rho0) * (alpha/omega0)
-            p1 = r0 + beta * (p0 - omega0*v0)
+            if rho1 == 0 or rho0 == 0 or omega0 == 0:  # breakdown: restart from the current residual.
+                hr0 = r0.copy()
+                rho1 = np.sum(hr0 * r0)
+                p1 = r0.copy()
+            else:
+                beta = (rho1/rho0) * (alpha/omega0)
+                p1 = r0 + beta * (p0 - omega0*v0)
 
         COMM.Bcast([p1, MPI.FLOAT], root=MASTER_RANK)
 
@@ -127,7 +132,8 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_v1_acd_, v1, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            alpha = rho1 / np.sum(hr0 * v1)
+            hr0_v1 = np.sum(hr0 * v1)
+            alpha = rho1 / hr0_v1 if hr0_v1 != 0 else 0.
             s = r0 - alpha * v1
 
         COMM.Bcast([s, MPI.FLOAT], root=MASTER_RANK)
@@ -136,7 +142,8 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_t_acd_, t, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            omega1 = np.sum(t * s) / np.sum(t ** 2)
+            t_t = np.sum(t ** 2)
+            omega1 = np.sum(t * s) / t_t if t_t != 0 else 0.  # t=0 when s=0: solved.
             x0 += alpha * p1 + omega1 * s
 
 
-- 
2.43.0


From 82473c4e388890a83a80a817a798ba2b3f5537e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 48/75] fix: blocks of a block matrix without empty blocks were
 not accessible (Schur solver)

---
 .../dataStructures/objects/sparseMatrix/blocks/main.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
index 39c61db..b4efde3 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
@@ -17,7 +17,11 @@ class EWC_SpaMat_Blocks(FrozenOnly):
         assert GM0 is not None and GM1 is not None, f"To access blocks, must have gathering matrices."
 
         self._shape_ = spa_mat.bmat_shape
-        self.___BLOCKS___ = np.array(spa_mat._DG_.blocks, dtype=object)
+        blocks = spa_mat._DG_.blocks
+        self.___BLOCKS___ = np.empty((len(blocks), len(blocks[0])), dtype=object)
+        for i, row in enumerate(blocks):
+            for j, block in enumerate(row):  # one by one, np.array would iterate over the blocks.
+                self.___BLOCKS___[i, j] = block
 
 
         # - replace all None blocks by zero-blocks --------------------------------------------
-- 
2.43.0


From 9d942d20394e5873202282639712ab5428b961e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 49/75] fix: refining a space used the first increment along
 all axes

---
 objects/CSCG/_2d/spaces/polynomials/do.py | 2 +-
 objects/CSCG/_3d/spaces/polynomials/do.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/spaces/polynomials/do.py b/objects/CSCG/_2d/spaces/polynomials/do.py
index bdf677a..e3a5742 100644
--- a/objects/CSCG/_2d/spaces/polynomials/do.py
+++ b/objects/CSCG/_2d/spaces/polynomials/do.py
@@ -34,7 +34,7 @@ class _2dCSCG_space_Polynomial_Do(_2dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py = self.space.p
         px += p[0]
-        py += p[0]
+        py += p[1]
         new_input = (
             [category[0], px],
             [category[1], py]
diff --git a/objects/CSCG/_3d/spaces/polynomials/do.py b/objects/CSCG/_3d/spaces/polynomials/do.py
index 8ace676..4959d2f 100644
--- a/objects/CSCG/_3d/spaces/polynomials/do.py
+++ b/objects/CSCG/_3d/spaces/polynomials/do.py
@@ -36,8 +36,8 @@ class _3dCSCG_space_Polynomial_do(_3dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py, pz = self._space_.p
         px += p[0]
-        py += p[0]
-        pz += p[0]
+        py += p[1]
+        pz += p[2]
         new_input = (
             [category[0], px],
             [category[1], py],
-- 
2.43.0


From 1e33cd9ca90a300069a9d33a7ddca838c6d70a10 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 50/75] fix: cached basis values were returned for a grid
 modified in place

---
 objects/CSCG/base/spaces/_1d_basis/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/base/spaces/_1d_basis/polynomials.py b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
index a907ab5..fa0ffc8 100644
--- a/objects/CSCG/base/spaces/_1d_basis/polynomials.py
+++ b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
@@ -107,7 +107,7 @@ class _1dPolynomial(FrozenOnly):
                     if i != j:
                         basis[i, :] *= (x - self.nodes[j]) / (self.nodes[i] - self.nodes[j])
 
-            self._Lb_cache_['x'] = x
+            self._Lb_cache_['x'] = np.array(x)  # a copy: x may be modified by the caller afterwards
             self._Lb_cache_['cache'] = basis
             return basis
 
@@ -123,7 +123,7 @@ class _1dPolynomial(FrozenOnly):
             for i in range(p):
                 for j in range(i + 1):
                     edge_poly[i] -= derivatives_poly[j, :]
-            self._eb_cache_['x'] = x
+            self._eb_cache_['x'] = np.array(x)  # a copy: x may be modified by the caller afterwards
             self._eb_cache_['cache'] = edge_poly
             return edge_poly
 
-- 
2.43.0


From 61256b2d6511c28956ae6c2663bb4b96694a8b6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 51/75] fix: cached quadrature was returned for a list of
 degrees modified in place

---
 objects/CSCG/_2d/spaces/polynomials/main.py | 4 +++-
 objects/CSCG/_3d/spaces/polynomials/main.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/spaces/polynomials/main.py b/objects/CSCG/_2d/spaces/polynomials/main.py
index 57ad3e0..aabb0f4 100644
--- a/objects/CSCG/_2d/spaces/polynomials/main.py
+++ b/objects/CSCG/_2d/spaces/polynomials/main.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from objects.CSCG._2d.spaces.base.main import _2dCSCG_Space
 from components.quadrature import Quadrature
+from copy import copy
 from root.config.main import *
 from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial
 
@@ -35,7 +36,8 @@ class _2dCSCG_PolynomialSpace(_2dCSCG_Space):
             quad_nodes, quad_weights = _Quadrature_.quad
             quad_weights_ravel = _Quadrature_.quad_ndim_ravel[-1]
             # return quad_nodes, quad_weights, quad_weights_ravel
-            self._quadrature_cache_ = [quad_degree, quad_type,
+            # copies: the inputs may be lists which are modified by the caller afterwards.
+            self._quadrature_cache_ = [copy(quad_degree), copy(quad_type),
                                        quad_nodes, quad_weights, quad_weights_ravel]
 
         return self._quadrature_cache_[2:]
diff --git a/objects/CSCG/_3d/spaces/polynomials/main.py b/objects/CSCG/_3d/spaces/polynomials/main.py
index a07bc45..f145f15 100644
--- a/objects/CSCG/_3d/spaces/polynomials/main.py
+++ b/objects/CSCG/_3d/spaces/polynomials/main.py
@@ -9,6 +9,7 @@
 """
 from objects.CSCG._3d.spaces.base.main import _3dCSCG_Space_Base
 from components.quadrature import Quadrature
+from copy import copy
 from root.config.main import *
 
 from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial
@@ -54,7 +55,8 @@ class _3dCSCG_PolynomialSpace(_3dCSCG_Space_Base):
             quad_nodes, quad_weights = _Quadrature_.quad
             quad_weights_ravel = _Quadrature_.quad_ndim_ravel[-1]
             # return quad_nodes, quad_weights, quad_weights_ravel
-            self._quadrature_cache_ = [quad_degree, quad_type,
+            # copies: the inputs may be lists which are modified by the caller afterwards.
+            self._quadrature_cache_ = [copy(quad_degree), copy(quad_type),
                                        quad_nodes,
                                        quad_weights,
                                        quad_weights_ravel]
-- 
2.43.0


From e8bfb756d143c644083d7449b8c70fc77094095e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 52/75] fix: setting the cochain of dual (trace) forms from a
 distributed vector

---
 objects/CSCG/_3d/ADF/standard/base/cochain/main.py | 2 +-
 objects/CSCG/_3d/ADF/trace/base/cochain/main.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
index b042fcc..1929941 100644
--- a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
@@ -86,7 +86,7 @@ class _3dCSCG_Algebra_DUAL_Standard_Form_Cochain(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dsf_.num.global_dofs,))
+                    VV = np.zeros((self._dsf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
index c804dd6..e265d59 100644
--- a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
@@ -61,20 +61,20 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
         if globe.__class__.__name__ == 'DistributedVector':
             assert globe.V.shape == (self._dt_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
-            if globe.IS_master_dominating:
+            if globe.whether.master_dominating:
                 # no need to gather
                 VV = globe.V.T.toarray()[0]
             else:
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dt_.num.global_dofs,))
+                    VV = np.zeros((self._dt_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
                         VV[indices] = data
             # distribute vector to individual cores ...
-            local_range = self._dt_.numbering.gathering.local_range
+            local_range = self._dt_.prime.numbering.gathering.local_range
             local_range = COMM.gather(local_range, root=MASTER_RANK)
             if RANK == MASTER_RANK:
                 TO_BE_SENT = list()
-- 
2.43.0


From ce590f9cf305b69464792c89399ac8a6b0a07393 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 53/75] fix: sign of the U/D sides in the 2D outer 1-trace
 matrix

---
 objects/CSCG/_2d/spaces/base/trace_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/spaces/base/trace_matrix.py b/objects/CSCG/_2d/spaces/base/trace_matrix.py
index ff36335..8e61fe4 100644
--- a/objects/CSCG/_2d/spaces/base/trace_matrix.py
+++ b/objects/CSCG/_2d/spaces/base/trace_matrix.py
@@ -100,8 +100,8 @@ class TraceMatrix(FrozenOnly):
         )
         sln = self.___generate_gathering_hybrid_element___(self._FS_.num_basis._2dCSCG_1Trace_Outer[2])
         oln_NS, oln_WE = self._FS_.local_numbering._2dCSCG_1Form_Outer
-        PU[oln_NS[0, :].ravel('F'), sln['U']] = +1  # Upper
-        PU[oln_NS[-1, :].ravel('F'), sln['D']] = -1  # Down
+        PU[oln_NS[0, :].ravel('F'), sln['U']] = -1  # Upper
+        PU[oln_NS[-1, :].ravel('F'), sln['D']] = +1  # Down
         PU[oln_WE[:, 0].ravel('F'), sln['L']] = -1  # Left
         PU[oln_WE[:, -1].ravel('F'), sln['R']] = +1  # Right
 
-- 
2.43.0


From 0e5c9e6c467f4e8e5778b54bd7acb28cc3805626 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 54/75] fix: trace elements: inverse Jacobian and metric are
 tangential on non-orthogonal elements

---
 .../element/coordinate_transformation/main.py | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
index b771381..08ff1e4 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
@@ -115,23 +115,14 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
 
     def inverse_Jacobian_matrix(self, *evaluation_points):
         """
-        The local inverse_Jacobian matrix.
+        The local inverse_Jacobian matrix: the left inverse of the (3 by 2) Jacobian matrix whose rows are tangent to
+        the trace element. So, also for non-orthogonal elements, it only depends on the trace element itself.
 
         :param evaluation_points : A tuple or list of shape (ndim-1, ...).
         """
-        i = self._te_.CHARACTERISTIC_element
-        element_side = self._te_.CHARACTERISTIC_side
-        ep = self._te_._elements_.___generate_full_ep___(evaluation_points, element_side)
-        iJ = self._te_._mesh_.elements[i].coordinate_transformation.inverse_Jacobian_matrix(*ep)
-        if element_side in 'NS':
-            return ((iJ[1][0], iJ[1][1], iJ[1][2]),
-                    (iJ[2][0], iJ[2][1], iJ[2][2]))
-        elif element_side in 'WE': # this is very important, do not used [0], [2] for the indices.. But when we feed x, y, z, always use x, y, z.
-            return ((iJ[2][0], iJ[2][1], iJ[2][2]),
-                    (iJ[0][0], iJ[0][1], iJ[0][2]))
-        else:
-            return ((iJ[0][0], iJ[0][1], iJ[0][2]),
-                    (iJ[1][0], iJ[1][1], iJ[1][2]))
+        J = self.Jacobian_matrix(*evaluation_points)
+        iG = self.inverse_metric_matrix(*evaluation_points)
+        return tuple(tuple(iG[i][0] * J[k][0] + iG[i][1] * J[k][1] for k in range(3)) for i in range(2))
 
     def metric_matrix(self, *evaluation_points):
         """Compute the metric matrix G whose entries are g_{i,j}."""
@@ -149,17 +140,11 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
 
     def inverse_metric_matrix(self, *evaluation_points):
         """Compute the inverse metric matrix G whose entries are g^{i,j}."""
-        iJ = self.inverse_Jacobian_matrix(*evaluation_points)
-        Gk = [[None for _ in range(2)] for __ in range(2)]
-        for i in range(2):
-            for j in range(i, 2):
-                Gk[i][j] = iJ[i][0] * iJ[j][0] + iJ[i][1] * iJ[j][1] + iJ[i][2] * iJ[j][2]
-                if i != j:
-                    Gk[j][i] = Gk[i][j]
-
-        return Gk
-
-
+        G = self.metric_matrix(*evaluation_points)
+        # noinspection PyUnresolvedReferences
+        g = G[0][0]*G[1][1] - G[0][1]*G[1][0]
+        return [[G[1][1] / g, - G[0][1] / g],
+                [- G[1][0] / g, G[0][0] / g]]
 
     def metric(self, *evaluation_points):
         """return metric g."""
-- 
2.43.0


From 1f51cb2539445914abded829ea13a8cf202a6bce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 55/75] fix: boundary integrals: evaluate the given function in
 physical coordinates, 2D weights of the right axis

---
 .../outer/boundary_integrate/helpers/ipS_helper.py        | 8 +++++---
 .../standard/_1s/boundary_integration/helpers/V_helper.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
index 1ad8088..7724fae 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
@@ -41,8 +41,8 @@ class ipS_Helper(FrozenOnly):
         Qd = [[1, ], Qlr]
         Ql = [Qud, [-1, ]]
         Qr = [Qud, [1, ]]
-        self.Wu = self.Wd = Wud
-        self.Wl = self.Wr = Wlr
+        self.Wu = self.Wd = Wlr  # along the U and D edges, we have the second axis.
+        self.Wl = self.Wr = Wud
 
         self.GMu = sf.do.make_reconstruction_matrix_on_grid(*Qu, element_range='mesh boundary')
         self.GMd = sf.do.make_reconstruction_matrix_on_grid(*Qd, element_range='mesh boundary')
@@ -79,7 +79,9 @@ class ipS_Helper(FrozenOnly):
 
                     fv = self._S_.___DO_evaluate_func_at_time___()[bn][0]
 
-                    fv = fv(*getattr(self, 'Q'+side)).ravel('F')
+                    # the function is in physical coordinates.
+                    xy = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+                    fv = fv(*xy).ravel('F')
                     GM = getattr(self, 'GM'+side)[i]
                     QW = getattr(self, 'W' + side)
 
diff --git a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
index ef8d050..3b5917a 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
@@ -90,9 +90,11 @@ class S1F_BI_V_Helper(FrozenOnly):
 
                     vf0, vf1, vf2 = self._V_.func[bn]
 
-                    vf0 = vf0(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf1 = vf1(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf2 = vf2(t, *getattr(self, 'Q'+side)).ravel('F')
+                    # the functions are in physical coordinates.
+                    xyz = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+                    vf0 = vf0(t, *xyz).ravel('F')
+                    vf1 = vf1(t, *xyz).ravel('F')
+                    vf2 = vf2(t, *xyz).ravel('F')
 
                     GM0, GM1, GM2 = getattr(self, 'GM'+side)[i]
 
-- 
2.43.0


From e83cfa4c66257e4c655603712deda88607153683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 56/75] fix: projection of 3D 1-/2-forms to three 0-forms used
 a removed attribute

---
 objects/CSCG/_3d/forms/standard/_1s/project/to.py | 6 +++---
 objects/CSCG/_3d/forms/standard/_2s/project/to.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/project/to.py b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
index 4cfbbd8..22e7678 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
@@ -55,21 +55,21 @@ class ___3dCSCG_1Form_Project_To___(FrozenOnly):
         mesh = self._sf_.mesh
 
         f0_x = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_x_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_y = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_y_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_z = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_z_0form_of_'+self._sf_.standard_properties.name
diff --git a/objects/CSCG/_3d/forms/standard/_2s/project/to.py b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
index 2fe8c54..d6ced37 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
@@ -19,17 +19,17 @@ class ___3dCSCG_2Form_Project_To___(FrozenOnly):
         space = self._sf_.space
         mesh = self._sf_.mesh
 
-        f0_x = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_x = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_x_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_y = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_y = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_y_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_z = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_z = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_z_0form_of_'+self._sf_.standard_properties.name)
-- 
2.43.0


From 4ce23255e20776644bc9fd8adc7d6e461a364a5e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 57/75] fix: inner product of a 3D vector field with the space
 of a 1-/2-form always raised

---
 objects/CSCG/_3d/fields/vector/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/fields/vector/main.py b/objects/CSCG/_3d/fields/vector/main.py
index 8fa5101..533d1db 100644
--- a/objects/CSCG/_3d/fields/vector/main.py
+++ b/objects/CSCG/_3d/fields/vector/main.py
@@ -206,10 +206,10 @@ class _3dCSCG_VectorField(_3dCSCG_Continuous_FORM_BASE, ndim=3):
         """
         if self.ftype == 'standard':
             assert self.mesh == other.mesh
-            if other.__class__.__name__ == '_2Form':
+            if other.__class__.__name__ == '_3dCSCG_2Form':
                 # when other is a 2-form, we consider self as a (star of) continuous 1-form.
                 DG = _VF_InnerWith2Form(self, other, quad_degree)
-            elif other.__class__.__name__ == '_1Form':
+            elif other.__class__.__name__ == '_3dCSCG_1Form':
                 # when other is a 1-form, we consider self as a (star of) continuous 2-form.
                 DG = _VF_InnerWith1Form(self, other, quad_degree)
             else:
-- 
2.43.0


From bc957ea4eeb18700c21e20302e5c2fac367a82ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 58/75] fix: L^n norm of a 2D vector field read a third
 component

---
 objects/CSCG/_2d/fields/vector/do/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/fields/vector/do/main.py b/objects/CSCG/_2d/fields/vector/do/main.py
index 1ed9747..34b132d 100644
--- a/objects/CSCG/_2d/fields/vector/do/main.py
+++ b/objects/CSCG/_2d/fields/vector/do/main.py
@@ -46,7 +46,7 @@ class _2dCSCG_VectorField_DO(FrozenOnly):
 
                 local_norm.append(
                     np.sum(
-                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n+(QuadValue[i][2])**n)
+                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n)
                         * quad_weights
                         * detJ[i]
                     )
-- 
2.43.0


From d2700ad18d5b37a925f3522326e6d6a1a6276cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 59/75] fix: normal of a 3D mesh boundary was taken from one
 rank when other ranks' parts differ or are not flat

---
 .../coordinate_transformation/constant.py       | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/boundaries/boundary/coordinate_transformation/constant.py b/objects/CSCG/_3d/mesh/boundaries/boundary/coordinate_transformation/constant.py
index d71c4ee..f063b85 100644
--- a/objects/CSCG/_3d/mesh/boundaries/boundary/coordinate_transformation/constant.py
+++ b/objects/CSCG/_3d/mesh/boundaries/boundary/coordinate_transformation/constant.py
@@ -53,24 +53,21 @@ class _3dCSCG_MeshBoundaryCT_constant(FrozenOnly):
                         break
             if TF:
                 LOCAL_CV = cV
+            elif len(local_trace_elements) == 0:
+                LOCAL_CV = None  # no local trace element on this boundary.
             else:
-                LOCAL_CV = None
+                LOCAL_CV = False  # not constant locally.
 
             LOCAL_CV = COMM.gather(LOCAL_CV, root=MASTER_RANK)
 
             if RANK == MASTER_RANK:
 
-                cN = LOCAL_CV.count(None)
-
-                if cN == len(LOCAL_CV):
-                    LOCAL_CV = None
+                cVs = [_ for _ in LOCAL_CV if _ is not None]
 
+                if len(cVs) > 0 and all([_ == cVs[0] for _ in cVs]) and cVs[0] is not False:
+                    LOCAL_CV = cVs[0]
                 else:
-                    cv = None
-                    for cv in LOCAL_CV:
-                        if cv is not None:
-                            break
-                    LOCAL_CV = cv
+                    LOCAL_CV = None
 
             else:
                 pass
-- 
2.43.0


From cbcab349c14746cd6b41dbb721f92600d0a85f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 60/75] fix: region-wise reconstruction grids: results of a
 previous grid were reused for an array modified in place

---
 objects/CSCG/_2d/forms/standard/base/reconstruct.py | 2 +-
 objects/CSCG/_3d/forms/standard/base/reconstruct.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
index d1c8115..6cb9282 100644
--- a/objects/CSCG/_2d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
@@ -187,7 +187,7 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
             Xi_Eta_Sigma_D[rn] = RST
 
         ___grid_cache_2dCSCG_SF_Reconstruct___['mesh'] = mesh
-        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = rs
+        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = {rn: tuple(_.copy() for _ in rs[rn]) for rn in rs}
         ___grid_cache_2dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         # ======================================================================================
         return Xi_Eta_Sigma_D, rs
diff --git a/objects/CSCG/_3d/forms/standard/base/reconstruct.py b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
index 56b2f6b..914a59e 100644
--- a/objects/CSCG/_3d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
@@ -211,7 +211,7 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
             Xi_Eta_Sigma_D[rn] = RST
 
         ___grid_cache_3dCSCG_SF_Reconstruct___['mesh'] = mesh
-        ___grid_cache_3dCSCG_SF_Reconstruct___['grid']  = rst
+        ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] = {rn: tuple(_.copy() for _ in rst[rn]) for rn in rst}
         ___grid_cache_3dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         #==========================================================================================1
         return Xi_Eta_Sigma_D, rst
-- 
2.43.0


From a29c3f1b30d8d771570cba84e5197ccdfb50baca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:28 +0000
Subject: [PATCH 61/75] fix: cross products of 3D forms on curved elements used
 the Jacobian of transposed quadrature points

---
 .../standard/_1s/special/helpers/cross_product_1__ip_1.py   | 6 +++---
 .../standard/_1s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_1__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_1.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../_2s/special/helpers/cross_product_2__ip_2_2M0.py        | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 7d7e65a..2d33e0a 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -54,9 +54,9 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
         RMe = e1.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
index 2ecd3d4..6c3590e 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
@@ -52,9 +52,9 @@ class ___3dCSCG_1Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
index e135ccc..892e907 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_1__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index 9936072..3102141 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -56,9 +56,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
             RMe = j.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = u.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
index 685222b..a91bf33 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
index 40a5ec7..a44e63c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
@@ -48,9 +48,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2_2M0___(FrozenOnly):
             RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
-- 
2.43.0


From ee4f78ade8ae18ef9fb3a19767153e9609b18244 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:28 +0000
Subject: [PATCH 62/75] fix: 2-M-0 output of the cross product of 3D 1-forms
 contracted the wrong slot

---
 .../forms/standard/_1s/special/helpers/cross_product_1__ip_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 2d33e0a..c33c4db 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -114,7 +114,7 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
 
     def _2_M_0_(self, i):
         """return 2d matrix of output = '2-M-1' type for mesh-element #i."""
-        M = np.einsum('ijk, i -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
+        M = np.einsum('ijk, j -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
         return csr_matrix(M)
 
     #     """
-- 
2.43.0


From 8aebe2da4c0d1a6dd0750af3b31dc62bd0fc762d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:28 +0000
Subject: [PATCH 63/75] fix: curl of a cross product: cached data of dead forms
 could be returned for new ones

---
 .../standard/_2s/special/helpers/inner_curl_cross_2f2f.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
index d1a6755..ea0d9a1 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/inner_curl_cross_2f2f.py
@@ -13,6 +13,7 @@ from scipy.sparse import csc_matrix, bmat, csr_matrix
 
 _global_cache = {
     'key': '',
+    'forms': None,  # keep the forms alive: the key is made of their ids.
     'data': dict(),
 }
 
@@ -27,7 +28,7 @@ class _InnerCurlCrossProduct_2f2f(FrozenOnly):
         assert u2.mesh == B2.mesh, "_InnerCurlCrossProduct_2f2f: Meshes do not match."
         assert u2.mesh == b2.mesh, "_InnerCurlCrossProduct_2f2f: Meshes do not match."
 
-        key = "{}{}{}{}".format(id(u2), id(B2), id(b2), quad_degree)
+        key = "{}-{}-{}-{}".format(id(u2), id(B2), id(b2), quad_degree)
         if key == _global_cache['key']:
             _3dM = _global_cache['data']
 
@@ -97,6 +98,7 @@ class _InnerCurlCrossProduct_2f2f(FrozenOnly):
                     raise NotImplementedError()
 
             _global_cache['key'] = key
+            _global_cache['forms'] = (u2, B2, b2)
             _global_cache['data'] = _3dM
 
         self._3dM = _3dM
-- 
2.43.0


From 3d6e36fc4900ff46b96e3e92b94e075b427e84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 64/75] fix: nonlinear system: linear blocks given as a tuple
 of tuples raised

---
 tools/miLinearAlgebra/nonlinearSystem/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/miLinearAlgebra/nonlinearSystem/main.py b/tools/miLinearAlgebra/nonlinearSystem/main.py
index e43f81a..f477c31 100644
--- a/tools/miLinearAlgebra/nonlinearSystem/main.py
+++ b/tools/miLinearAlgebra/nonlinearSystem/main.py
@@ -93,6 +93,7 @@ class NonLinearSystem(FrozenOnly):
 
         """
         assert isinstance(A, (list, tuple)), f"Please put linear blocks in a list or a tuple."
+        A = list(A)
 
         # ---------- parse blocks ------------------------------------------------------
         shape0 = len(A)
-- 
2.43.0


From 22bdc6405871fd2baa7eb3cfa7500a1f76324fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 65/75] fix: Newton-Raphson: values of the initial guess were
 imposed after the first evaluation

---
 .../solve/NewtonRaphson/regular.py              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py b/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
index 3a1b580..217f51a 100644
--- a/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
+++ b/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
@@ -114,6 +114,13 @@ class nLS_Solve_NR_regular(FrozenOnly):
 
         t_iteration_start = time()
 
+        # ---- customize the initial guess: must be done before anything is evaluated with it -------1
+        for customization in self._nLS_.customize.customizations:
+            if customization[0] == "set_ith_value_of_initial_guess":
+                # we make the initial value of dof #i to be v
+                i, v = customization[1]
+                xi._V_[i] = v
+
         while 1:
             ITER += 1
 
@@ -208,14 +215,8 @@ class nLS_Solve_NR_regular(FrozenOnly):
 
                 # ------------------------------------------------------------3
                 elif method_name == "set_ith_value_of_initial_guess":
-                    # we make the initial value of dof #i to be v
-
-                    if ITER == 1:  # only need to do it for the initial guess
-                        i, v = method_para
-                        xi._V_[i] = v
-
-                    else:
-                        pass
+                    # done above, before the first evaluation.
+                    pass
 
                 # ------------------------------------------------------------3
                 elif method_name == "set_no_evaluations":
-- 
2.43.0


From 04dc7f518da8f843bda8a66f4bc31ad48de86a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:04 +0000
Subject: [PATCH 66/75] fix: locally full vector of forms in the sequent chain
 accumulated the dofs shared by elements

---
 .../dataStructures/vectors/locallyFull/main.py         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
index 6d33c5a..0ec9782 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
@@ -55,9 +55,17 @@ class LocallyFullVector(FrozenOnly):
                     EWC = concatenate(EWC)
                     EWC.assembler.chain_method = chain_method
                     EWC.gathering_matrix = V
+                    GM = EWC.gathering_matrix
                     V = EWC.assembled               # GlobalVector
                     V = LocallyFullVector(V).V      # make it a LocallyFullVector
-                    self._V_ = V                    # use the V of LocallyFullVector as self._V_
+
+                    # a dof shared by multiple elements has been accumulated: we take the average.
+                    measure = np.zeros(len(V), dtype=int)
+                    for e in EWC:
+                        np.add.at(measure, GM[e], 1)
+                    measure = np.sum(COMM.allgather(measure), axis=0)
+                    measure[measure == 0] = 1
+                    self._V_ = V / measure          # use the V of LocallyFullVector as self._V_
 
                 else:
                     raise NotImplementedError(f"initializing locally full vector from "
-- 
2.43.0


From 7306447535848e85b68982a96c1bd30b380f9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:29 +0000
Subject: [PATCH 67/75] fix: nonlinear system: a zero right hand side entry was
 accepted but raised when solving

---
 tools/miLinearAlgebra/nonlinearSystem/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/nonlinearSystem/main.py b/tools/miLinearAlgebra/nonlinearSystem/main.py
index f477c31..4409616 100644
--- a/tools/miLinearAlgebra/nonlinearSystem/main.py
+++ b/tools/miLinearAlgebra/nonlinearSystem/main.py
@@ -196,8 +196,7 @@ class NonLinearSystem(FrozenOnly):
 
         """
         assert isinstance(b, (list, tuple)), f"pls put right-hand-side vector in a list."
-        if isinstance(b, tuple):
-            b = list(b)
+        b = [None if bi.__class__.__name__ in ('int', 'float') and bi == 0 else bi for bi in b]
         # ----------- save b -------------------------------------------------------------
         self._b_ = b
 
-- 
2.43.0


From bbe82aecf0dde86baaf511961fc727563aa7d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 68/75] fix: reductions and triangular quadrature kept the
 caller's list of degrees as cache key

---
 .../forms/standard/_1_form/inner/discretize/vector/standard.py | 3 ++-
 .../forms/standard/_1_form/outer/discretize/vector/standard.py | 3 ++-
 .../forms/standard/_2_form/base/discretize/scalar/standard.py  | 3 ++-
 .../CSCG/_3d/forms/standard/_1s/discretize/vector/standard.py  | 3 ++-
 .../_3d/forms/standard/_2s/discretize/vector/boundary_wise.py  | 3 ++-
 .../CSCG/_3d/forms/standard/_2s/discretize/vector/standard.py  | 3 ++-
 .../CSCG/_3d/forms/standard/_3s/discretize/scalar/standard.py  | 3 ++-
 .../forms/standard/_1/inner/discretize/vector/standard.py      | 3 ++-
 .../forms/standard/_1/outer/discretize/vector/standard.py      | 3 ++-
 .../forms/standard/_2/base/discretize/scalar/standard.py       | 3 ++-
 objects/miUsGrid/triangular/space/evaluation.py                | 3 ++-
 11 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_1_form/inner/discretize/vector/standard.py b/objects/CSCG/_2d/forms/standard/_1_form/inner/discretize/vector/standard.py
index 9e2ecbd..d378924 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/inner/discretize/vector/standard.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/inner/discretize/vector/standard.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 
 import numpy as np
@@ -40,7 +41,7 @@ class _2dCSCG_S1Fi_Discretize_StandardVector(FrozenOnly):
             edge_size = (edge_size_d_xi, edge_size_d_eta)
             self.___DISCRETIZE_STANDARD_CACHE___['edge'] = edge_size
             self.___DISCRETIZE_STANDARD_CACHE___['quad_weights'] = quad_weights
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
         else:
             pass
 
diff --git a/objects/CSCG/_2d/forms/standard/_1_form/outer/discretize/vector/standard.py b/objects/CSCG/_2d/forms/standard/_1_form/outer/discretize/vector/standard.py
index 408fbad..cc42ab4 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/outer/discretize/vector/standard.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/outer/discretize/vector/standard.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 
 import numpy as np
@@ -40,7 +41,7 @@ class _2dCSCG_S1Fo_Discretize_StandardVector(FrozenOnly):
             edge_size = (edge_size_d_xi, edge_size_d_eta)
             self.___DISCRETIZE_STANDARD_CACHE___['edge'] = edge_size
             self.___DISCRETIZE_STANDARD_CACHE___['quad_weights'] = quad_weights
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
         else:
             pass
 
diff --git a/objects/CSCG/_2d/forms/standard/_2_form/base/discretize/scalar/standard.py b/objects/CSCG/_2d/forms/standard/_2_form/base/discretize/scalar/standard.py
index c7d94d3..17a1cce 100644
--- a/objects/CSCG/_2d/forms/standard/_2_form/base/discretize/scalar/standard.py
+++ b/objects/CSCG/_2d/forms/standard/_2_form/base/discretize/scalar/standard.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 
 from components.quadrature import Quadrature
@@ -42,7 +43,7 @@ class _2dCSCG_S2F_Discretize_StandardScalar(FrozenOnly):
                         * (SELF.space.nodes[1][j+1]-SELF.space.nodes[1][j])/2 + SELF.space.nodes[1][j]
                     volume[m] = (SELF.space.nodes[0][i+1]-SELF.space.nodes[0][i]) \
                         * (SELF.space.nodes[1][j+1]-SELF.space.nodes[1][j]) * magic_factor
-            self.___DISCRETIZE_STANDARD_CACHE___ = quad_degree, xi, et, volume
+            self.___DISCRETIZE_STANDARD_CACHE___ = copy(quad_degree), xi, et, volume
         else:
             xi, et, volume = self.___DISCRETIZE_STANDARD_CACHE___[1:]
 
diff --git a/objects/CSCG/_3d/forms/standard/_1s/discretize/vector/standard.py b/objects/CSCG/_3d/forms/standard/_1s/discretize/vector/standard.py
index 76e1512..f3223da 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/discretize/vector/standard.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/discretize/vector/standard.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 
@@ -44,7 +45,7 @@ class _3dCSCG_Discretize_Standard(FrozenOnly):
             edge_size = (edge_size_d_xi, edge_size_d_eta, edge_size_d_sigma)
             self.___DISCRETIZE_STANDARD_CACHE___['edge'] = edge_size
             self.___DISCRETIZE_STANDARD_CACHE___['quad_weights'] = quad_weights
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
         else:
             pass
 
diff --git a/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/boundary_wise.py b/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/boundary_wise.py
index ccf6c2a..05e1d9b 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/boundary_wise.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/boundary_wise.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 
@@ -93,7 +94,7 @@ class _3dCSCG_Discretize_BoundaryWise(FrozenOnly):
                                        * (SELF.space.nodes[0][i + 1] - SELF.space.nodes[0][i])
 
             self.___DISCRETIZE_STANDARD_CACHE___['Z'] = (xi, et, si, area_dxdy)
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
             del xi, et, si
         else:
             pass
diff --git a/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/standard.py b/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/standard.py
index ad70fe8..9b630a6 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/standard.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/discretize/vector/standard.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 
@@ -91,7 +92,7 @@ class _3dCSCG_Discretize_Standard(FrozenOnly):
                                        * (SELF.space.nodes[0][i + 1] - SELF.space.nodes[0][i])
 
             self.___DISCRETIZE_STANDARD_CACHE___['Z'] = (xi, et, si, area_dxdy)
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
             del xi, et, si
         else:
             pass
diff --git a/objects/CSCG/_3d/forms/standard/_3s/discretize/scalar/standard.py b/objects/CSCG/_3d/forms/standard/_3s/discretize/scalar/standard.py
index cca10c3..666c59d 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/discretize/scalar/standard.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/discretize/scalar/standard.py
@@ -1,3 +1,4 @@
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 
@@ -48,7 +49,7 @@ class _3dCSCG_Discretize_Standard(FrozenOnly):
                         volume[m] = (SELF.space.nodes[0][i+1]-SELF.space.nodes[0][i]) \
                                   * (SELF.space.nodes[1][j+1]-SELF.space.nodes[1][j]) \
                                   * (SELF.space.nodes[2][k+1]-SELF.space.nodes[2][k]) * magic_factor
-            self.___DISCRETIZE_STANDARD_CACHE___ = quad_degree, xi, et, si, volume
+            self.___DISCRETIZE_STANDARD_CACHE___ = copy(quad_degree), xi, et, si, volume
         else:
             xi, et, si, volume = self.___DISCRETIZE_STANDARD_CACHE___[1:]
         cochainLocal = dict()
diff --git a/objects/miUsGrid/triangular/forms/standard/_1/inner/discretize/vector/standard.py b/objects/miUsGrid/triangular/forms/standard/_1/inner/discretize/vector/standard.py
index d98aa4d..5b9be21 100644
--- a/objects/miUsGrid/triangular/forms/standard/_1/inner/discretize/vector/standard.py
+++ b/objects/miUsGrid/triangular/forms/standard/_1/inner/discretize/vector/standard.py
@@ -8,6 +8,7 @@ import sys
 
 if './' not in sys.path: sys.path.append('./')
 
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 from components.quadrature import Quadrature
@@ -84,7 +85,7 @@ class miUsTriangular_iS1F_Discretize_StandardVector(FrozenOnly):
             edge_size = (edge_size_d_xi, edge_size_d_eta)
             self.___DISCRETIZE_STANDARD_CACHE___['edge'] = edge_size
             self.___DISCRETIZE_STANDARD_CACHE___['quad_weights'] = quad_weights
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
         else:
             pass
 
diff --git a/objects/miUsGrid/triangular/forms/standard/_1/outer/discretize/vector/standard.py b/objects/miUsGrid/triangular/forms/standard/_1/outer/discretize/vector/standard.py
index 622fc22..9b51f26 100644
--- a/objects/miUsGrid/triangular/forms/standard/_1/outer/discretize/vector/standard.py
+++ b/objects/miUsGrid/triangular/forms/standard/_1/outer/discretize/vector/standard.py
@@ -8,6 +8,7 @@ import sys
 
 if './' not in sys.path: sys.path.append('./')
 
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 from components.quadrature import Quadrature
@@ -84,7 +85,7 @@ class miUsTriangular_oS1F_Discretize_StandardVector(FrozenOnly):
             edge_size = (edge_size_d_xi, edge_size_d_eta)
             self.___DISCRETIZE_STANDARD_CACHE___['edge'] = edge_size
             self.___DISCRETIZE_STANDARD_CACHE___['quad_weights'] = quad_weights
-            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = quad_degree
+            self.___DISCRETIZE_STANDARD_CACHE___['quadDegree'] = copy(quad_degree)
         else:
             pass
 
diff --git a/objects/miUsGrid/triangular/forms/standard/_2/base/discretize/scalar/standard.py b/objects/miUsGrid/triangular/forms/standard/_2/base/discretize/scalar/standard.py
index 9b5cccd..6a97245 100644
--- a/objects/miUsGrid/triangular/forms/standard/_2/base/discretize/scalar/standard.py
+++ b/objects/miUsGrid/triangular/forms/standard/_2/base/discretize/scalar/standard.py
@@ -8,6 +8,7 @@ import sys
 
 if './' not in sys.path: sys.path.append('./')
 
+from copy import copy
 from components.freeze.base import FrozenOnly
 from components.quadrature import Quadrature
 import numpy as np
@@ -53,7 +54,7 @@ class miUsTriangular_S2F_Discretize_StandardScalar(FrozenOnly):
                               )/2 + nodes[j]
                     volume[m] = (nodes[i+1]-nodes[i]) \
                               * (nodes[j+1]-nodes[j])  * magic_factor
-            self.___DISCRETIZE_STANDARD_CACHE___ = quad_degree, xi, et, volume
+            self.___DISCRETIZE_STANDARD_CACHE___ = copy(quad_degree), xi, et, volume
         else:
             xi, et, volume = self.___DISCRETIZE_STANDARD_CACHE___[1:]
 
diff --git a/objects/miUsGrid/triangular/space/evaluation.py b/objects/miUsGrid/triangular/space/evaluation.py
index 32b683f..f4e6cc1 100644
--- a/objects/miUsGrid/triangular/space/evaluation.py
+++ b/objects/miUsGrid/triangular/space/evaluation.py
@@ -8,6 +8,7 @@ import sys
 
 if './' not in sys.path: sys.path.append('./')
 
+from copy import copy
 from components.freeze.base import FrozenOnly
 import numpy as np
 from components.quadrature import Quadrature
@@ -40,7 +41,7 @@ class miUsGrid_TriangularFunctionSpace_Evaluation(FrozenOnly):
             quad_weights_ravel = _Quadrature_.quad_ndim_ravel[-1]
             # return quad_nodes, quad_weights, quad_weights_ravel
             self._quadrature_cache_ = [
-                quad_degree, quad_nodes, quad_weights, quad_weights_ravel
+                copy(quad_degree), quad_nodes, quad_weights, quad_weights_ravel
             ]
 
         return self._quadrature_cache_[1:]
-- 
2.43.0


From d38bb6da16142fc7c6eb49483f2b5c1762bca545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:49 +0000
Subject: [PATCH 69/75] fix: triangular forms have no num.global_dofs, used by
 their cochain.globe and by distributed_to

---
 objects/miUsGrid/triangular/forms/standard/base/num.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objects/miUsGrid/triangular/forms/standard/base/num.py b/objects/miUsGrid/triangular/forms/standard/base/num.py
index eefcedf..b2f95ce 100644
--- a/objects/miUsGrid/triangular/forms/standard/base/num.py
+++ b/objects/miUsGrid/triangular/forms/standard/base/num.py
@@ -19,6 +19,10 @@ class miUs_Triangular_SF_Num(FrozenOnly):
     def basis(self):
         return getattr(self._sf_.space.num_basis, self._sf_.__class__.__name__)
 
+    @property
+    def global_dofs(self):
+        return self.GLOBAL_dofs
+
     @property
     def GLOBAL_dofs(self):
         return self._sf_.numbering.gathering.global_num_dofs
\ No newline at end of file
-- 
2.43.0


From 3ae524a952f73cc0920c0b4ea10c31083d134daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 70/75] fix: the inner product of two triangular vector fields
 was a vector field of the products

---
 .../triangular/fields/vector/do/inner_product.py  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
index 3f6005a..4a5d8c0 100644
--- a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
+++ b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
@@ -9,7 +9,7 @@ import sys
 if './' not in sys.path: sys.path.append('./')
 from components.freeze.main import FrozenOnly
 
-from objects.CSCG._2d.fields.scalar.do.cross_product.helpers.helper2 import ___SF_CROSS_PRODUCT_HELPER_2___
+from objects.CSCG._2d.fields.vector.do.inner_product.helpers.helper import VF2_IP_H
 
 from importlib import import_module
 
@@ -25,24 +25,23 @@ class miUsTriangle_VectorField_InnerProduct(FrozenOnly):
                 if vector.ftype == 'standard':
                     u, v = self._vf_.func
                     a, b = vector.func
-                    IP1 = ___SF_CROSS_PRODUCT_HELPER_2___(u, a)
-                    IP2 = ___SF_CROSS_PRODUCT_HELPER_2___(v, b)
+                    IP = VF2_IP_H(u, v, a, b)
 
                     base_path = '.'.join(str(self.__class__).split(' ')[1][1:-2].split('.')[:-4]) + '.'
 
-                    vector_class = getattr(import_module(base_path + 'vector.main'),
-                                           'miUsGrid_Triangular_Vector')
+                    scalar_class = getattr(import_module(base_path + 'scalar.main'),
+                                           'miUsGrid_Triangular_Scalar')
 
-                    Ip_vector = vector_class(
+                    Ip_scalar = scalar_class(
                         self._vf_.mesh,
-                        [IP1, IP2],
+                        IP,
                         ftype='standard',
                         valid_time=self._vf_.valid_time,
                         name =self._vf_.standard_properties.name
                               + '--inner-product--'
                               + vector.standard_properties.name
                     )
-                    return Ip_vector
+                    return Ip_scalar
                 else:
                     raise NotImplementedError(
                         f"a standard miUsGrid_Triangular_Vector cannot do inner product with "
-- 
2.43.0


From 9e0f43c55e7353989bd22b4291bbf46da725238d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 71/75] fix: cached transformations of similar triangular
 elements could not use intermediate data

---
 .../mesh/elements/coordinate_transformation/helpers/cache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
index 9968125..8a1f7ae 100644
--- a/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
+++ b/objects/miUsGrid/triangular/mesh/elements/coordinate_transformation/helpers/cache.py
@@ -80,7 +80,7 @@ class miUsTriangle_Elements_CT_Cache(FrozenOnly):
                     data = getattr(element.coordinate_transformation, self._method_)(self._xi_, self._et_)
                 else:
                     data = getattr(element.coordinate_transformation, self._method_)(
-                        self._xi_, self._et_, item = self._itmD_[item]
+                        self._xi_, self._et_, itmD=self._itmD_[item]
                     )
                 self._cache_[cKey] = data
                 return data
-- 
2.43.0


From 42458a97e37b2e078787b96c34146696f019cd98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 72/75] fix: the cached triple product of triangular forms
 ignored the element types of the test form

---
 .../forms/standard/_0/base/do/helpers/_0x1_ip_1.py       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objects/miUsGrid/triangular/forms/standard/_0/base/do/helpers/_0x1_ip_1.py b/objects/miUsGrid/triangular/forms/standard/_0/base/do/helpers/_0x1_ip_1.py
index d68b753..deeacde 100644
--- a/objects/miUsGrid/triangular/forms/standard/_0/base/do/helpers/_0x1_ip_1.py
+++ b/objects/miUsGrid/triangular/forms/standard/_0/base/do/helpers/_0x1_ip_1.py
@@ -69,12 +69,13 @@ class ___0_x_1__ip__1___(FrozenOnly):
     def ___Pr_realtime_3dM___(self, e):
         """Compute the 3d data for element #e."""
 
-        cKey = self._u1_.___Pr_EWC_cache_key___
+        # the data depend on the types of all the forms, u1 and e1 can be of different orientations.
+        cKeys = [f.___Pr_EWC_cache_key___ for f in (self._w0_, self._u1_, self._e1_)]
 
-        if cKey != 'no_cache':
-            cKey = cKey(e)
+        if 'no_cache' not in cKeys:
+            cKey = tuple(cK(e) for cK in cKeys)
         else:
-            pass
+            cKey = 'no_cache'
 
         if cKey != 'no_cache' and cKey in self._3dM_cache_:
             return self._3dM_cache_[cKey]
-- 
2.43.0


From 688cf527c2c745b775d822ec6259da9359196e31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:46:45 +0000
Subject: [PATCH 73/75] fix: local dofs of a triangular boundary condition were
 taken from another one whose list had the same id

---
 objects/miUsGrid/base/form/base/BC/interpret/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/miUsGrid/base/form/base/BC/interpret/local.py b/objects/miUsGrid/base/form/base/BC/interpret/local.py
index ed2694a..10ddef1 100644
--- a/objects/miUsGrid/base/form/base/BC/interpret/local.py
+++ b/objects/miUsGrid/base/form/base/BC/interpret/local.py
@@ -11,7 +11,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___miUSGrid_global_BC_itp_Local_dofs_cache___ = {
-    'iEE_ID': -1,
+    'iEE': None,  # the object itself: its id can be re-used once it is gone.
     'dofs': dict(),
 }
 
@@ -36,7 +36,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEE = self._f_.BC._involved_element_parts_
 
-        if id(iEE) == ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID']:
+        if iEE is ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE']:
             self._dofs_ = ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -55,7 +55,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID'] = id(iEE)
+            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE'] = iEE
             ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
-- 
2.43.0


From fafaeb271873cf3174f580c677f6645e4eb3975f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 74/75] fix: tiny or almost equal triangular elements were
 taken for elements of the same shape

---
 objects/miUsGrid/triangular/mesh/elements/element/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/element/main.py b/objects/miUsGrid/triangular/mesh/elements/element/main.py
index 7288556..83290e3 100644
--- a/objects/miUsGrid/triangular/mesh/elements/element/main.py
+++ b/objects/miUsGrid/triangular/mesh/elements/element/main.py
@@ -133,7 +133,10 @@ class miUsGrid_TriangularMesh_Element(FrozenOnly):
         c2d = self.coordinates_2d
         c2d[:,0] -= c2d[0,0]
         c2d[:,1] -= c2d[0,1]
-        c2d = ''.join(['%.4f'%i for i in c2d[1:,:].ravel('F')])
+        c2d = c2d[1:,:].ravel('F')
+        # the digits must be relative to the size of the element: elements can be tiny or almost the same.
+        size = np.max(np.abs(c2d))
+        c2d = '%.10e'%size + ''.join(['%.10f'%i for i in c2d/size])
         return c2d
 
 
-- 
2.43.0


From 5e7b71d9a5551ad029e6085193a9219633827040 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 75/75] fix: rank_of_element of triangular meshes failed with
 more than four ranks of which some are empty

---
 objects/miUsGrid/triangular/mesh/elements/do/find.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/do/find.py b/objects/miUsGrid/triangular/mesh/elements/do/find.py
index 1593a87..451f5dd 100644
--- a/objects/miUsGrid/triangular/mesh/elements/do/find.py
+++ b/objects/miUsGrid/triangular/mesh/elements/do/find.py
@@ -33,20 +33,20 @@ class miUsGrid_TriangularMesh_Elements_DO_FIND(FrozenOnly):
         midCore1 = SIZE // 2
         midCore2 = SIZE
         while i not in DISTRI[midCore1] and midCore1 - midCore0 > 2 and midCore2 - midCore1 > 2:
-            if i > max(DISTRI[midCore1]):
+            if i >= DISTRI[midCore1].stop:  # the range can be empty.
                 midCore0 = midCore1
                 midCore1 = (midCore0 + midCore2) // 2
-            elif i < min(DISTRI[midCore1]):
+            elif i < DISTRI[midCore1].start:
                 midCore2 = midCore1
                 midCore1 = (midCore0 + midCore2) // 2
             else:
                 raise Exception
         if i in DISTRI[midCore1]:
             return midCore1
-        elif i > np.max(DISTRI[midCore1]):
+        elif i >= DISTRI[midCore1].stop:
             for noCore in range(midCore1, midCore2):
                 if i in DISTRI[noCore]: return noCore
-        elif i < np.min(DISTRI[midCore1]):
+        elif i < DISTRI[midCore1].start:
             for noCore in range(midCore0, midCore1):
                 if i in DISTRI[noCore]: return noCore
         else:
-- 
2.43.0

