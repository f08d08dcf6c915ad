From d9faa36bdf3f974b9f33bf9d911b533993574cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 01/52] fix: trim linearly varying loads correctly when
 splitting a physical member

The load equation closed over w1/w2, which are overwritten while the load is
being trimmed to the sub-member, so the end magnitude of a trimmed load was
computed from an already trimmed start magnitude.
---
 PyNite/PhysMember.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..e168e7c 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -109,7 +109,8 @@ class PhysMember(Member3D):
                     case = dist_load[5]
 
                     # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    # Note: The end magnitudes are bound as defaults so that trimming `w1` and `w2` below doesn't change the equation
+                    w = lambda x, w1=w1, w2=w2: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From 3430b965f7b18a3525d6d6ec5f9bd4f069af978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 02/52] fix: report support spring reactions with the sign of
 the force on the structure

---
 PyNite/Analysis.py | 50 ++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..1f9d60b 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -794,43 +794,31 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             elif load[0] == 'MZ' and node.support_RZ:
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
-            # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+            # Calculate any reactions due to active spring supports at the node. A spring always pushes back against the displacement, regardless of which direction it's able to resist. At rigidly supported degrees of freedom the element forces summed above already include what the spring carries.
+            if node.spring_DX[0] != None and node.spring_DX[2] == True and not node.support_DX:
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFX[combo.name] -= k*DX
+            if node.spring_DY[0] != None and node.spring_DY[2] == True and not node.support_DY:
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFY[combo.name] -= k*DY
+            if node.spring_DZ[0] != None and node.spring_DZ[2] == True and not node.support_DZ:
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnFZ[combo.name] -= k*DZ
+            if node.spring_RX[0] != None and node.spring_RX[2] == True and not node.support_RX:
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnMX[combo.name] -= k*RX
+            if node.spring_RY[0] != None and node.spring_RY[2] == True and not node.support_RY:
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                node.RxnMY[combo.name] -= k*RY
+            if node.spring_RZ[0] != None and node.spring_RZ[2] == True and not node.support_RZ:
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
-- 
2.43.0


From f60b19e3e92c93b7f3f3abf291e0fa0d9fbc88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 03/52] fix: don't let results of an earlier run leak into a
 new analysis

---
 PyNite/Analysis.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 1f9d60b..f172cf1 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -20,6 +20,18 @@ def _prepare_model(model):
         node.RY = {}
         node.RZ = {}
 
+    # Reset any reactions, so that none are left over from load combinations that aren't about to be run
+    for node in model.nodes.values():
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
+
+    # Results from any prior run are gone. Member end forces depend on this flag, so it can't be left over from a prior run while this one is in progress.
+    model.solution = None
+
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
         # Create and add a default load combination to the dictionary of load combinations
-- 
2.43.0


From 6f82911c94ea1cc85f00cefb76f677bc07f91792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 04/52] fix: let the dense solver run a P-Delta analysis

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index f172cf1..7559213 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -208,7 +208,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -316,7 +316,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..8b8dc29 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1607,7 +1607,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From 6889dbfac130991d4b99f110c6a418f61ba21019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 05/52] fix: let the statics check skip untagged load
 combinations

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 7559213..68cb20b 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -859,7 +859,7 @@ def _check_statics(model, combo_tags=None):
     else:
         combo_list = []
         for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
+            if combo.combo_tags is not None and any(tag in combo.combo_tags for tag in combo_tags):
                 combo_list.append(combo)
 
     # Step through each load combination
-- 
2.43.0


From f95972b52bee7e45ba658c37d1dd455b7fe18346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 06/52] fix: keep one-way support spring states separate for
 each load combination

---
 PyNite/Analysis.py  | 28 ++++++++++++++++++++++------
 PyNite/FEModel3D.py |  9 +++++++++
 PyNite/Node3D.py    |  1 +
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 68cb20b..abdef4d 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -83,6 +83,18 @@ def _identify_combos(model, combo_tags=None):
     # Return the list of load combinations to be evaluated
     return combo_list
 
+def _activate_support_springs(model):
+    """Activates every support spring in the model, so that the analysis of a load combination doesn't depend on which support springs prior analyses deactivated.
+
+    :param model: The model being analyzed.
+    :type model: FEModel3D
+    """
+
+    for node in model.nodes.values():
+        for spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ):
+            if spring[0] is not None:
+                spring[2] = True
+
 def _check_stability(model, K):
     """
     Identifies nodal instabilities in a model's stiffness matrix.
@@ -451,6 +463,9 @@ def _store_displacements(model, D1, D2, D1_indices, D2_indices, combo):
         node.RY[combo.name] = D[node.ID*6 + 4, 0]
         node.RZ[combo.name] = D[node.ID*6 + 5, 0]
 
+        # Keep track of which support springs were active for these displacements
+        node._active_springs[combo.name] = [node.spring_DX[2], node.spring_DY[2], node.spring_DZ[2], node.spring_RX[2], node.spring_RY[2], node.spring_RZ[2]]
+
 def _sum_displacements(model, Delta_D1, Delta_D2, D1_indices, D2_indices, combo):
     """Sums calculated displacements for a load step from the solver into the model's displacement vector `_D` and into each node object in the model.
 
@@ -807,27 +822,28 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node. A spring always pushes back against the displacement, regardless of which direction it's able to resist. At rigidly supported degrees of freedom the element forces summed above already include what the spring carries.
-            if node.spring_DX[0] != None and node.spring_DX[2] == True and not node.support_DX:
+            active_springs = node._active_springs[combo.name]
+            if node.spring_DX[0] != None and active_springs[0] == True and not node.support_DX:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True and not node.support_DY:
+            if node.spring_DY[0] != None and active_springs[1] == True and not node.support_DY:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True and not node.support_DZ:
+            if node.spring_DZ[0] != None and active_springs[2] == True and not node.support_DZ:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True and not node.support_RX:
+            if node.spring_RX[0] != None and active_springs[3] == True and not node.support_RX:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True and not node.support_RY:
+            if node.spring_RY[0] != None and active_springs[4] == True and not node.support_RY:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True and not node.support_RZ:
+            if node.spring_RZ[0] != None and active_springs[5] == True and not node.support_RZ:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 8b8dc29..6130f32 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1956,6 +1956,9 @@ class FEModel3D():
                 print('')
                 print('- Analyzing load combination ' + combo.name)
 
+            # Start with all the support springs active
+            Analysis._activate_support_springs(self)
+
             # Keep track of the number of iterations
             iter_count = 1
             convergence = False
@@ -2061,6 +2064,9 @@ class FEModel3D():
         # Get the auxiliary list used to determine how the matrices will be partitioned
         D1_indices, D2_indices, D2 = Analysis._partition_D(self)
 
+        # All the support springs are active in a linear analysis
+        Analysis._activate_support_springs(self)
+
         # Get the partitioned global stiffness matrix K11, K12, K21, K22
         # Note that for linear analysis the stiffness matrix can be obtained for any load combination, as it's the same for all of them
         combo_name = list(self.load_combos.keys())[0]
@@ -2166,6 +2172,9 @@ class FEModel3D():
             # Get the partitioned global nodal force vector       
             P1, P2 = Analysis._partition(self, self.P(combo.name), D1_indices, D2_indices)
 
+            # Start with all the support springs active
+            Analysis._activate_support_springs(self)
+
             # Run the P-Delta analysis for this load combination
             Analysis._PDelta_step(self, combo.name, P1, FER1, D1_indices, D2_indices, D2, log, sparse, check_stability, max_iter, True)
         
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..3bae0b1 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -52,6 +52,7 @@ class Node3D():
         self.spring_RX = [None, None, None]
         self.spring_RY = [None, None, None]
         self.spring_RZ = [None, None, None]
+        self._active_springs = {}  # Which support springs were active when each load combination was solved
 
         # Initialize all enforced displacements to `None`
         self.EnforcedDX = None
-- 
2.43.0


From ac723b6835d859e4a1ff1fbb3af0205aaa94d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 07/52] fix: let a P-Delta analysis run on a model with loaded
 quads

---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..dc99fa9 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -642,6 +642,9 @@ class Quad3D():
         
         Hw = lambda xi, eta : 1/4*np.array([[(1 - xi)*(1 - eta), 0, 0, (1 + xi)*(1 - eta), 0, 0, (1 + xi)*(1 + eta), 0, 0, (1 - xi)*(1 + eta), 0, 0]])
 
+        # Recalculate the local coordinate system, in case the stiffness matrix hasn't been built yet
+        self._local_coords()
+
         # Initialize the fixed end reaction vector
         fer = np.zeros((12, 1))
 
-- 
2.43.0


From 4e5fa6a357b6060a1a348da0424cc665c7398c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 08/52] fix: report a singular stiffness matrix when the sparse
 solver returns values that aren't finite

---
 PyNite/Analysis.py  | 10 +++++++++-
 PyNite/FEModel3D.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index abdef4d..ea19289 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isfinite
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -245,6 +245,10 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
+                # The sparse solver doesn't raise an error for a singular matrix. It returns values that aren't finite instead.
+                if not isfinite(Delta_D1).all():
+                    raise ValueError('The stiffness matrix is singular.')
+
             except:
                 # Return out of the method if 'K' is singular and provide an error message
                 raise ValueError('The stiffness matrix is singular, which indicates that the structure is unstable.')
@@ -356,6 +360,10 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
 
+                # The sparse solver doesn't raise an error for a singular matrix. It returns values that aren't finite instead.
+                if not isfinite(Delta_D1).all():
+                    raise ValueError('The stiffness matrix is singular.')
+
             except:
                 # Return out of the method if 'K' is singular and provide an error message
                 raise ValueError('The structure is unstable. Unable to proceed any further with analysis.')
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 6130f32..b03868c 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -3,7 +3,7 @@ from os import rename
 import warnings
 from math import isclose
 
-from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
+from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all, isfinite
 from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
@@ -2001,6 +2001,10 @@ class FEModel3D():
                             D1 = D1.reshape(len(D1), 1)
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                        # The sparse solver doesn't raise an error for a singular matrix. It returns values that aren't finite instead.
+                        if not isfinite(D1).all():
+                            raise ValueError('The stiffness matrix is singular.')
                     except:
                         # Return out of the method if 'K' is singular and provide an error message
                         raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2108,6 +2112,10 @@ class FEModel3D():
                         D1 = D1.reshape(len(D1), 1)
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+
+                    # The sparse solver doesn't raise an error for a singular matrix. It returns values that aren't finite instead.
+                    if not isfinite(D1).all():
+                        raise ValueError('The stiffness matrix is singular.')
                 except:
                     # Return out of the method if 'K' is singular and provide an error message
                     raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
-- 
2.43.0


From 9d60871a2db243a1c56ab2e9a5c1b3ff4d6fd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 09/52] fix: generate meshes that haven't been generated before
 an analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index ea19289..371f995 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -39,7 +39,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all springs and members for all load combinations
-- 
2.43.0


From 4af0b9a0702e0b52388ff76238fabad431ba852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 10/52] fix: don't report valid quad meshes as missing from the
 model in the mesh integrity check

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..2bbe83d 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1620,7 +1620,7 @@ def check_mesh_integrity(mesh, console_log=True):
     # Check that each element in the mesh is in the model
     count = 0
     for element in mesh.elements.values():
-        if element not in mesh.model.plates.values() and element.name not in mesh.model.quads.values():
+        if element not in mesh.model.plates.values() and element not in mesh.model.quads.values():
             count += 1
     
     if count != 0:
-- 
2.43.0


From 274e162d6079cbe9c0f7666ead2eaec7e473f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 11/52] fix: measure the radius of a frustrum mesh about the
 mesh's own axis

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 2bbe83d..1ca479f 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1199,7 +1199,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1207,12 +1207,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From ca04fbd94d495e79a65fba66401da393a43a8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 12/52] fix: honor the origin and the stiffness modifiers of a
 cylinder mesh

---
 PyNite/Mesh.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 1ca479f..0cbda10 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1318,20 +1318,23 @@ class CylinderMesh(Mesh):
         if num_elements == None:
             num_elements = int(2*pi/mesh_size)
 
+        # Set the local y-coordinate of the top of the cylinder
+        y_top = y + h
+
         # Mesh the cylinder from the bottom toward the top
-        while round(y, 10) < round(h, 10):
+        while round(y, 10) < round(y_top, 10):
 
-            height = h - y  #Remaining height to be meshed
+            height = y_top - y  #Remaining height to be meshed
             # Number of times the plate height fits in the remaining unmeshed height, resulting at least one element
             n_vert = max(int(abs(height)/mesh_size),1)
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [self.origin[0], y, self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, self.origin[1], self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [self.origin[0], self.origin[1], y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From fb37075d9ac108e4b886be482f68e341ccb17d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 13/52] fix: don't change the lists of control points the user
 passes to a rectangle mesh

---
 PyNite/Mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 0cbda10..ba89a01 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -438,10 +438,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
@@ -455,8 +455,8 @@ class RectangleMesh(Mesh):
         Yo = self.origin[1]
         Zo = self.origin[2]
         plane = self.plane
-        x_control = self.x_control
-        y_control = self.y_control
+        x_control = list(self.x_control)
+        y_control = list(self.y_control)
 
         element_type = self.element_type
 
-- 
2.43.0


From 38632a58eedffd5b76894a16ed2e44ea0cea584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 14/52] fix: recognize control points that nearly duplicate the
 edge of a rectangle mesh

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index ba89a01..ce0dd58 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -474,7 +474,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(x_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(x_control[i], x_control[i+1]):
+            if not isclose(x_control[i], x_control[i+1], abs_tol=1e-10):
                 unique_list.append(x_control[i])
         unique_list.append(x_control[-1])
         x_control = unique_list
@@ -483,7 +483,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(y_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(y_control[i], y_control[i+1]):
+            if not isclose(y_control[i], y_control[i+1], abs_tol=1e-10):
                 unique_list.append(y_control[i])
         unique_list.append(y_control[-1])
         y_control = unique_list
-- 
2.43.0


From f6822ea7b2c2c4afb9622ecc470de5d5e7b882f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 15/52] fix: mesh annulus rings that are narrower than the mesh
 size

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index ce0dd58..88af13d 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -820,7 +820,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
-- 
2.43.0


From b27a7ee6a966192e8af4a59f3be79d83c7000b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 16/52] fix: don't let a generated mesh overwrite or duplicate
 nodes and elements in the model

---
 PyNite/Mesh.py | 89 ++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 50 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 88af13d..d7c2e44 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -85,6 +85,32 @@ class Mesh():
         self.nodes = revised_nodes
         self.elements = revised_elements
             
+    def _remove_from_model(self):
+        """Removes the nodes and elements from a prior generation of the mesh from the model. Nodes that other elements in the model are attached to are left in the model.
+        """
+
+        # Remove the mesh's elements from the model
+        for element in self.elements.values():
+            for elements in (self.model.plates, self.model.quads):
+                if elements.get(element.name) is element:
+                    del elements[element.name]
+
+        # Identify the nodes that are still being used by other elements in the model
+        used_nodes = []
+        for elements in (self.model.springs, self.model.members, self.model.plates, self.model.quads):
+            for element in elements.values():
+                for node_type in ('i_node', 'j_node', 'm_node', 'n_node'):
+                    used_nodes.append(id(getattr(element, node_type, None)))
+        used_nodes = set(used_nodes)
+
+        # Remove the mesh's nodes from the model
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node and id(node) not in used_nodes:
+                del self.model.nodes[node.name]
+
+        self.nodes = {}
+        self.elements = {}
+
     def generate(self):
         """
         A placeholder to be overwritten by subclasses inheriting from this class
@@ -448,6 +474,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Remove anything a prior generation of this mesh left in the model
+        self._remove_from_model()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -804,6 +833,9 @@ class AnnulusMesh(Mesh):
     
     def generate(self):
         
+        # Remove anything a prior generation of this mesh left in the model
+        self._remove_from_model()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -863,16 +895,8 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used in the model
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -988,17 +1012,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1166,16 +1179,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1290,6 +1293,9 @@ class CylinderMesh(Mesh):
     
     def generate(self):
         
+        # Remove anything a prior generation of this mesh left in the model
+        self._remove_from_model()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
@@ -1353,15 +1359,8 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
+        # Add the nodes and elements to the model, renaming any whose names are already being used in the model
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -1536,16 +1535,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From 797ae9f0b6da7e448fbd928a02f3f774b26b0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 17/52] fix: don't lose nodes and elements whose names are
 already in use when renaming a model

---
 PyNite/FEModel3D.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index b03868c..8a1846e 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2348,49 +2348,59 @@ class FEModel3D():
 
         # Rename each node in the model
         temp = self.nodes.copy()
+        self.nodes.clear()
         id = 1
-        for old_key in temp.keys():
+        for item in temp.values():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = item
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
         temp = self.springs.copy()
+        self.springs.clear()
         id = 1
-        for old_key in temp.keys():
+        for item in temp.values():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = item
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
         temp = self.members.copy()
+        self.members.clear()
         id = 1
-        for old_key in temp.keys():
+        for item in temp.values():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = item
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
         temp = self.plates.copy()
+        self.plates.clear()
         id = 1
-        for old_key in temp.keys():
+        for item in temp.values():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = item
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
         temp = self.quads.copy()
+        self.quads.clear()
         id = 1
-        for old_key in temp.keys():
+        for item in temp.values():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = item
             self.quads[new_key].name = new_key
             id += 1
 
+        # Update the names of the nodes and elements in each mesh
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
+
     def orphaned_nodes(self):
         """
         Returns a list of the names of nodes that are not attached to any elements.
-- 
2.43.0


From 75b0dace207f78092e386b1f7261bf4611a94cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 18/52] fix: delete the springs attached to a node along with
 the node

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 8a1846e..4be06af 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,6 +840,7 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
-- 
2.43.0


From 3f13e39b8861870fab96cd91eb6e428be760c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 19/52] fix: detach members from a deleted auxiliary node

---
 PyNite/FEModel3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 4be06af..1f04f2f 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -860,7 +860,7 @@ class FEModel3D():
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is not None and member.auxNode.name == auxnode_name:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From c092f57833b85189a76995a95c1f6029c27be774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 20/52] fix: keep nodal loads and enforced displacements when
 merging nodes, and return the removed names

---
 PyNite/FEModel3D.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 1f04f2f..95fbef2 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -798,6 +798,16 @@ class FEModel3D():
                     value = getattr(self.nodes[node_2_name], dof)
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
+
+                # Merge any enforced displacements
+                disp_cond = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in disp_cond:
+                    value = getattr(self.nodes[node_2_name], dof)
+                    if value is not None:
+                        setattr(self.nodes[node_1_name], dof, value)
+
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
                 
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
@@ -828,6 +838,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the nodes that were removed
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From fa8bac7f2b0563367d4e98edefdc61cc8c25f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 21/52] fix: report array results and end forces of physical
 members across all of their sub-members

---
 PyNite/PhysMember.py | 120 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 117 insertions(+), 3 deletions(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index e168e7c..ecdb5a3 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace, vstack, zeros, clip
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -417,8 +417,122 @@ class PhysMember(Member3D):
             The name of the load combination to get the results for (not the combination itself).
         """
         
-        member, x_mod = self.find_member(x)
-        return member.rel_deflection(Direction, x_mod, combo_name)
+        # Only calculate results if the member is currently active
+        if self.active[combo_name]:
+
+            # The relative deflection is measured from the chord between the ends of the physical member
+            member, x_mod = self.find_member(x)
+            return member.deflection(Direction, x_mod, combo_name) - self._chord(Direction, x, combo_name)
+
+        else:
+
+            return 0
+
+    def f(self, combo_name='Combo 1', push_combo='Push', step_num=1):
+        """
+        Returns the physical member's local end force vector for the given load combination.
+
+        The end forces are those at the i-node of the first sub-member and the j-node of the last sub-member.
+        """
+
+        # A physical member that hasn't been subdivided yet acts like a single member
+        if not self.sub_members:
+            return super().f(combo_name, push_combo, step_num)
+
+        sub_members = list(self.sub_members.values())
+        f = zeros((12, 1))
+        f[0:6] = sub_members[0].f(combo_name, push_combo, step_num)[0:6]
+        f[6:12] = sub_members[-1].f(combo_name, push_combo, step_num)[6:12]
+        return f
+
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the physical member for the given direction. See `Member3D.shear_array` for a description of the parameters.
+        """
+
+        return self._array(lambda member, x: member.shear_array(Direction, None, combo_name, x), n_points, combo_name, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the physical member for the given direction. See `Member3D.moment_array` for a description of the parameters.
+        """
+
+        return self._array(lambda member, x: member.moment_array(Direction, None, combo_name, x), n_points, combo_name, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the physical member. See `Member3D.torque_array` for a description of the parameters.
+        """
+
+        return self._array(lambda member, x: member.torque_array(None, combo_name, x), n_points, combo_name, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the physical member. See `Member3D.axial_array` for a description of the parameters.
+        """
+
+        return self._array(lambda member, x: member.axial_array(None, combo_name, x), n_points, combo_name, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the physical member for the given direction. See `Member3D.deflection_array` for a description of the parameters.
+        """
+
+        return self._array(lambda member, x: member.deflection_array(Direction, None, combo_name, x), n_points, combo_name, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the physical member for the given direction. See `Member3D.rel_deflection_array` for a description of the parameters.
+        """
+
+        results = self.deflection_array(Direction, n_points, combo_name, x_array)
+        if self.active[combo_name]:
+            results[1] -= self._chord(Direction, results[0], combo_name)
+        return results
+
+    def _chord(self, Direction, x, combo_name):
+        """
+        Returns the deflection at 'x' of the straight line between the deflected ends of the physical member.
+        """
+
+        i = {'dx': 0, 'dy': 1, 'dz': 2}[Direction]
+        d = self.d(combo_name)
+        return d[i, 0] + (d[i + 6, 0] - d[i, 0])/self.L()*x
+
+    def _array(self, results, n_points, combo_name, x_array):
+        """
+        Assembles an array of results along the physical member from the arrays of results for its sub-members.
+        """
+
+        # Generate the locations along the physical member
+        L = self.L()
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        else:
+            x_array = array(x_array, dtype=float)
+            if any(x_array < 0) or any(x_array > L):
+                raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        y_array = zeros(len(x_array))
+
+        # Step through each sub-member (in order from start to end)
+        x1 = 0
+        sub_members = list(self.sub_members.values())
+        for i, member in enumerate(sub_members):
+
+            # Identify the locations that lie on this sub-member
+            x2 = x1 + member.L()
+            on_member = x_array >= x1
+            if i < len(sub_members) - 1:
+                on_member = on_member & (x_array < x2)
+
+            # An inactive member has no results
+            if on_member.any() and member.active[combo_name]:
+                y_array[on_member] = results(member, clip(x_array[on_member] - x1, 0, member.L()))[1]
+
+            x1 = x2
+
+        return vstack((x_array, y_array))
 
     def find_member(self, x):
         """
-- 
2.43.0


From 204d0dac7d47a96b0168c29d552ce1dd904bcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 22/52] fix: include the loads on inactive members in the
 support reactions

---
 PyNite/Analysis.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 371f995..476e200 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -673,11 +673,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
-                            # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # Storing it as a local variable eliminates the need to rebuild it every time a term is needed
+                            # An inactive member has no stiffness, but the loads applied to it still reach its nodes
+                            member_F = member.F(combo.name) if phys_member.active[combo.name] else member.FER(combo.name)
 
                             if node.support_DX: node.RxnFX[combo.name] += member_F[0, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[1, 0]
@@ -686,11 +687,12 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
-                            # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # Storing it as a local variable eliminates the need to rebuild it every time a term is needed
+                            # An inactive member has no stiffness, but the loads applied to it still reach its nodes
+                            member_F = member.F(combo.name) if phys_member.active[combo.name] else member.FER(combo.name)
                         
                             if node.support_DX: node.RxnFX[combo.name] += member_F[6, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[7, 0]
-- 
2.43.0


From 35a25713af5e7f9f59b5a1d549e5c9da320548c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 23/52] fix: let a P-Delta analysis deactivate one-way members
 when every displacement is known

---
 PyNite/Analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 476e200..61ad86b 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -231,7 +231,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
@@ -346,7 +346,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From 21fe610e7eec67604cb46ff7cbf21e18e6db8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 24/52] fix: don't share load factors between load combinations
 created without any

---
 PyNite/LoadCombo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..484d766 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -2,7 +2,7 @@ class LoadCombo():
     """A class that stores all the information necessary to define a load combination.
     """
 
-    def __init__(self, name, combo_tags=None, factors={}):
+    def __init__(self, name, combo_tags=None, factors=None):
         """Initializes a new load combination.
 
         :param name: A unique name for the load combination.
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        self.factors = {} if factors is None else factors  # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 0cad4165ac76fbfd7c8365f7074b83db274855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 25/52] fix: delete the results stored in sub-members along
 with the loads

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 95fbef2..ac62561 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1252,6 +1252,9 @@ class FEModel3D():
             member.SegmentsZ = []
             member.SegmentsY = []
             member.SegmentsX = []
+
+            # The results are stored in the sub-members
+            member.sub_members = {}
         
         # Delete the plate loads
         for plate in self.plates.values():
-- 
2.43.0


From f3c432535c93b193c57ebacd0e4f177484ca83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 26/52] fix: condense the geometric stiffness consistently with
 the elastic stiffness at member end releases

---
 PyNite/FEModel3D.py |  9 ++-------
 PyNite/Member3D.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index ac62561..1dbc74e 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1636,19 +1636,14 @@ class FEModel3D():
                 # Step through each sub-member in the physical member and add terms
                 for member in phys_member.sub_members.values():
 
-                    # Calculate the axial force in the member
-                    E = member.E
-                    A = member.A
-                    L = member.L()
-
                     # Calculate the axial force acting on the member
                     if first_step:
                         # For the first load step take P = 0
                         P = 0
                     else:
                         # Calculate the member axial force due to axial strain
-                        d = member.d(combo_name)
-                        P = E*A/L*(d[6, 0] - d[0, 0])
+                        # Using the condensed stiffness leaves out any displacement that's absorbed by an axial end release
+                        P = matmul(member.k(), member.d(combo_name))[6, 0]
 
                     # Get the member's global stiffness matrix
                     # Storing it as a local variable eliminates the need to rebuild it every time a term is needed
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..fe063f8 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -202,16 +202,20 @@ class Member3D():
         
         kg = kg*P/L
 
-        # Partition the geometric stiffness matrix as 4 submatrices in
-        # preparation for static condensation
-        kg11, kg12, kg21, kg22 = self._partition(kg)
-               
-        # Calculate the condensed local geometric stiffness matrix
-        # Note that a matrix of zeros cannot be inverted, so if P is 0 an error will occur
+        # There is no geometric stiffness without any axial force
         if isclose(P, 0.0):
-            kg_Condensed = zeros(kg11.shape)
-        else:
-            kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
+            return zeros((12, 12))
+
+        # A member without end releases doesn't need to be condensed
+        if not any(self.Releases):
+            return kg
+
+        # The released ends move the way the member's total stiffness allows them to, so condense the elastic and geometric stiffness together
+        # The condensed geometric stiffness matrix is what's left over after taking out the condensed elastic stiffness matrix
+        k_unc = self._k_unc()
+        k11, k12, k21, k22 = self._partition(k_unc)
+        t11, t12, t21, t22 = self._partition(add(k_unc, kg))
+        kg_Condensed = subtract(subtract(t11, matmul(matmul(t12, inv(t22)), t21)), subtract(k11, matmul(matmul(k12, inv(k22)), k21)))
         
         # Expand the condensed local geometric stiffness matrix
         i=0
@@ -465,7 +469,7 @@ class Member3D():
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
-            P = (self.d(combo_name)[6, 0] - self.d(combo_name)[0, 0])*self.A*self.E/self.L()
+            P = matmul(self.k(), self.d(combo_name))[6, 0]
             return add(matmul(add(self.k(), self.kg(P)), self.d(combo_name)), self.fer(combo_name))
         elif self.model.solution == 'Pushover':
             P = self._fxj - self._fxi
-- 
2.43.0


From c9d82689c6ce8059240ae6b443b1f79c3ab334b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 27/52] fix: find the peak moment on a segment whose load is
 uniform but for rounding

---
 PyNite/BeamSegY.py | 14 ++++++++++----
 PyNite/BeamSegZ.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..687bfa5 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -1,3 +1,5 @@
+from math import copysign
+
 from PyNite.BeamSegZ import BeamSegZ
 
 # %%
@@ -132,8 +134,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Find the roots in a way that doesn't lose one of them to rounding when `a` is small relative to `b`
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -178,8 +182,10 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Find the roots in a way that doesn't lose one of them to rounding when `a` is small relative to `b`
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..08b3948 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -4,6 +4,8 @@ Created on Mon Nov  6 20:52:31 2017
 
 @author: D. Craig Brinck, SE
 """
+from math import copysign
+
 from numpy import full, array
 
 # %%
@@ -316,8 +318,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Find the roots in a way that doesn't lose one of them to rounding when `a` is small relative to `b`
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -361,8 +365,10 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Find the roots in a way that doesn't lose one of them to rounding when `a` is small relative to `b`
+            q = -(b + copysign((b**2-4*a*c)**0.5, b))/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
-- 
2.43.0


From cb1bc0a84283cb1634d156dd4194e9b736399b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 28/52] fix: inactive springs and members report no end forces
 of their own

---
 PyNite/Member3D.py | 4 ++++
 PyNite/Spring3D.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index fe063f8..1652a68 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -466,6 +466,10 @@ class Member3D():
         :rtype: array
         """
         
+        # An inactive member has no stiffness. The only end forces it has are the ones from any loads applied directly to it.
+        if not self.active[combo_name]:
+            return self.fer(combo_name)
+
         # Calculate and return the member's local end force vector
         if self.model.solution == 'P-Delta':
             # Back-calculate the axial force on the member from the axial strain
diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..742f8c1 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -80,6 +80,10 @@ class Spring3D():
             The name of the load combination to calculate the local end force vector for (not the load combination itself).
         '''
         
+        # An inactive spring carries no force
+        if not self.active[combo_name]:
+            return zeros((12, 1))
+
         # Calculate and return the spring's local end force vector
         return matmul(self.k(), self.d(combo_name))
 
-- 
2.43.0


From 0435c1e7e7ed066abe421db38eb5fd9c8ed2c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 29/52] fix: delete_node removes the node and its elements from
 meshes too

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 1dbc74e..075ca39 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -858,6 +858,11 @@ class FEModel3D():
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and any elements attached to it from the meshes too
+        for mesh in self.meshes.values():
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if node.name != node_name}
+            mesh.elements = {name: element for name, element in mesh.elements.items() if element.i_node.name != node_name and element.j_node.name != node_name and element.m_node.name != node_name and element.n_node.name != node_name}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From ab444513c1dd549af3d577ff5ec81306524c899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 30/52] fix: report twisting moments of rectangular plates
 without the excess factor 1/(1 - nu^2)

---
 PyNite/Plate3D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..40dfbf7 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -113,9 +113,9 @@ class Plate3D():
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-        Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
-                                                [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+        Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex,           0         ],
+                                                [nu_xy*Ey,    Ey,              0         ],
+                                                [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From a3540c029efb40deb598eca97d938a957e614804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 31/52] fix: report the results of every analyzed load
 combination, not empty tables or the default combination

---
 PyNite/Report_Template.html | 172 ++++++++++++++++++------------------
 PyNite/Reporting.py         |   3 +
 2 files changed, 89 insertions(+), 86 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 402b681..a06a731 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -393,29 +393,29 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -423,29 +423,29 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -477,11 +477,11 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -489,11 +489,11 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -608,9 +608,9 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -618,9 +618,9 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 15b12a8..365734a 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -58,6 +58,9 @@ def create_report(model, output_filepath=path/'./Pynite Report.pdf', **kwargs):
     kwargs['plates'] = model.plates.values()
     kwargs['quads'] = model.quads.values()
 
+    # Report the results of every load combination that has been analyzed
+    if 'load_combos' not in kwargs: kwargs['load_combos'] = [combo for combo in model.load_combos if all(combo in node.DX for node in model.nodes.values())]
+
     # Create the report HTML using jinja2
     HTML = template.render(**kwargs)
 
-- 
2.43.0


From b7c2620902b7ab527adef9c50f54e38e634967e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 32/52] fix: list the corner results of rectangular plates
 under the nodes they belong to

---
 PyNite/Report_Template.html | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index a06a731..6f1f25d 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -399,11 +399,11 @@
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
@@ -411,11 +411,11 @@
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -547,17 +547,17 @@
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 750559fdb59ba446cdaf71b4e5ed1c6f2c8d409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 33/52] fix: draw contours for the load combination that was
 asked for

---
 PyNite/Visualization.py | 64 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 7b813cb..1757875 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1464,45 +1464,45 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
                 element.m_node.contour.append(m)
                 element.n_node.contour.append(n)
             elif stress_type == 'Mx':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'My':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Mxy':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[2])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[2])
             elif stress_type == 'Qx':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Qy':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Sx':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Sy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Txy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[2])                 
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[2])                 
       
         # Average the values at each node to obtain a smoothed contour
         for node in model.nodes.values():
-- 
2.43.0


From 599bc4f4b1e6133f697186b84a01d69681e8354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 34/52] fix: put displacement contours of quads at the right
 corners

---
 PyNite/Visualization.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 1757875..1f9be8f 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1453,12 +1453,7 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
       
             # Determine which stress result has been requested by the user
             if stress_type == 'dz':
-                # Internally PyNite defines the nodes for a rectangular element in the order (i, j, m, n),
-                # while it defines the nodes for a quadrilateral element in the order (m, n, i, j)
-                if element.type == 'Rect':
-                    i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
-                else:
-                    i, j, m, n = element.d(combo_name)[[14, 20, 2, 8], :]
+                i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
                 element.i_node.contour.append(i)
                 element.j_node.contour.append(j)
                 element.m_node.contour.append(m)
-- 
2.43.0


From e7fd0f2fbc2b1c2b939359f167088348c4be835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 35/52] fix: clear the whole old picture before drawing a new
 one

---
 PyNite/Visualization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 1f9be8f..055a521 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -248,8 +248,7 @@ class Renderer():
         renderer = self.renderer
 
         # Clear out all the old actors from any previous renderings
-        for actor in renderer.GetActors():
-            renderer.RemoveActor(actor)
+        renderer.RemoveAllViewProps()
 
         # Add actors for each spring
         for vis_spring in vis_springs:
-- 
2.43.0


From 1d0fb235734f972d6e524129e8834940697ee950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 36/52] fix: draw surface pressures in the direction they act
 in

---
 PyNite/Rendering.py     | 8 +-------
 PyNite/Visualization.py | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index a769ade..4679c32 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1123,12 +1123,6 @@ class Renderer:
                     # Calculate the factored value for this load
                     load_value = load[0]*load_factors[load[1]]
                     
-                    # Find the sign for this load. Intercept any divide by zero errors
-                    if load[0] == 0:
-                        sign = 1
-                    else:
-                        sign = abs(load[0])/load[0]
-            
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
                     position1 = [plate.j_node.X, plate.j_node.Y, plate.j_node.Z]
@@ -1136,7 +1130,7 @@ class Renderer:
                     position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
             
                     # Create an area load and get its data
-                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
+                    self.plot_area_load(position0, position1, position2, position3, dir_cos, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
 
 def _PerpVector(v):
     '''
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 055a521..44f555c 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1739,12 +1739,6 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 # Calculate the factored value for this load
                 load_value = load[0]*load_factors[load[1]]
                 
-                # Find the sign for this load. Intercept any divide by zero errors
-                if load[0] == 0:
-                    sign = 1
-                else:
-                    sign = abs(load[0])/load[0]
-          
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
                 position1 = [plate.j_node.X, plate.j_node.Y, plate.j_node.Z]
@@ -1752,7 +1746,7 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
           
                 # Create an area load and get its data
-                area_load = VisAreaLoad(position0, position1, position2, position3, dir_cos*sign, abs(load_value)/max_area_load*5*annotation_size, '{:.3g}'.format(load_value), annotation_size, theme)
+                area_load = VisAreaLoad(position0, position1, position2, position3, dir_cos, load_value/max_area_load*5*annotation_size, '{:.3g}'.format(load_value), annotation_size, theme)
           
                 # Add the area load's arrows to the overall load polydata
                 polydata.AddInputData(area_load.polydata.GetOutput())
-- 
2.43.0


From 3857bbeea4511b0e71c877414f02f64019cece08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 37/52] fix: leave members that are inactive out of the
 deformed shape

---
 PyNite/Rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 4679c32..071905d 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -626,7 +626,7 @@ class Renderer:
     def plot_deformed_member(self, member, scale_factor):
         
         # Determine if this member is active for each load combination
-        if member.active:
+        if member.active[self.combo_name]:
         
             L = member.L() # Member length
             T = member.T() # Member local transformation matrix
-- 
2.43.0


From ac49b02070120b1c8ec86e2a7f11c247b7c6ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 38/52] fix: scale the pressures of a load case in models
 without members

---
 PyNite/Rendering.py     | 20 ++++++++++----------
 PyNite/Visualization.py | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 071905d..dee77b5 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -959,17 +959,17 @@ class Renderer:
                         if abs(load[2]) > max_dist_load:
                             max_dist_load = abs(load[2])
                 
-                # Step through each plate
-                for plate in self.model.plates.values():
-            
-                    # Step through each plate load
-                    for load in plate.pressures:
-            
-                        if load[1] == self.case:
-                
-                            if abs(load[0]) > max_area_load:
-                                max_area_load = abs(load[0])
+            # Step through each plate
+            for plate in self.model.plates.values():
+        
+                # Step through each plate load
+                for load in plate.pressures:
+        
+                    if load[1] == self.case:
             
+                        if abs(load[0]) > max_area_load:
+                            max_area_load = abs(load[0])
+        
             # Step through each quad
             for quad in self.model.quads.values():
         
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 44f555c..c3ad154 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -2086,17 +2086,17 @@ def _MaxLoads(model, combo_name=None, case=None):
                     if abs(load[2]) > max_dist_load:
                         max_dist_load = abs(load[2])
             
-            # Step through each plate
-            for plate in model.plates.values():
-          
-                # Step through each plate load
-                for load in plate.pressures:
-          
-                    if load[1] == case:
-            
-                        if abs(load[0]) > max_area_load:
-                            max_area_load = abs(load[0])
-          
+        # Step through each plate
+        for plate in model.plates.values():
+      
+            # Step through each plate load
+            for load in plate.pressures:
+      
+                if load[1] == case:
+        
+                    if abs(load[0]) > max_area_load:
+                        max_area_load = abs(load[0])
+      
         # Step through each quad
         for quad in model.quads.values():
       
-- 
2.43.0


From 967b8a971de461d1fa51b37cfd1f16b2f15bf73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 39/52] fix: draw loads of zero size without dividing by zero

---
 PyNite/Rendering.py     | 7 ++++---
 PyNite/Visualization.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index dee77b5..288817d 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -751,7 +751,7 @@ class Renderer:
 
         # Create point loads at intervals roughly equal to 75% of the load's largest length
         # Add text labels to the first and last load arrow
-        if load_length > 0:
+        if load_length > 0 and max(abs(length1), abs(length2)) > 0:
             num_steps = int(round(0.75 * load_length/max(abs(length1), abs(length2)), 0))
         else:
             num_steps = 0
@@ -982,7 +982,8 @@ class Renderer:
                             max_area_load = abs(load[0])
             
         # Return the maximum loads for the load combo or load case
-        return max_pt_load, max_moment, max_dist_load, max_area_load
+        # (loads that are all zero are drawn without size)
+        return max_pt_load or 1, max_moment or 1, max_dist_load or 1, max_area_load or 1
 
     def plot_loads(self):
       
@@ -1045,7 +1046,7 @@ class Renderer:
             
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     load_value = load[1]*load_factors[load[3]]
-                    sign = load_value/abs(load_value)
+                    sign = 1 if load_value == 0 else load_value/abs(load_value)
             
                     # Calculate the load's location in 3D space
                     x = load[2]
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index c3ad154..3c3b28b 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1229,7 +1229,7 @@ class VisDistLoad():
       
         # Create point loads at intervals roughly equal to 75% of the load's largest length (magnitude)
         # Add text labels to the first and last load arrow
-        if loadLength > 0:
+        if loadLength > 0 and max(abs(length1), abs(length2)) > 0:
             num_steps = int(round(0.75*loadLength/max(abs(length1), abs(length2)), 0))
         else:
             num_steps = 0
@@ -1650,7 +1650,7 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[3]]
-                sign = load_value/abs(load_value)
+                sign = 1 if load_value == 0 else load_value/abs(load_value)
           
                 # Calculate the load's location in 3D space
                 x = load[2]
@@ -2109,4 +2109,5 @@ def _MaxLoads(model, combo_name=None, case=None):
                         max_area_load = abs(load[0])
         
     # Return the maximum loads in the load combination or load case
-    return max_pt_load, max_moment, max_dist_load, max_area_load
+    # (loads that are all zero are drawn without size)
+    return max_pt_load or 1, max_moment or 1, max_dist_load or 1, max_area_load or 1
-- 
2.43.0


From c0413667fcf343656f66092948e3a69f45061e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 40/52] fix: don't convert one-element arrays to numbers, which
 NumPy no longer does, in reports and contours

---
 PyNite/Report_Template.html | 48 ++++++++++++++++++-------------------
 PyNite/Visualization.py     |  2 +-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 6f1f25d..aaf5777 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 3c3b28b..bf760ad 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1502,7 +1502,7 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
         for node in model.nodes.values():
             # Prevent divide by zero errors for nodes with no contour values
             if node.contour != []:
-                node.contour = sum(node.contour)/len(node.contour)
+                node.contour = (sum(node.contour)/len(node.contour)).item()
 
 def _DeformedShape(model, vtk_renderer, scale_factor, annotation_size, combo_name, render_nodes=True, theme='default'):
     '''
-- 
2.43.0


From ce4f97947a07fde25fc858fa7f81d368c2f68d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 41/52] fix: point the tip of a moment's arc along the arc
 (arc.center is the center of its bounding box)

---
 PyNite/Rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 288817d..72a8e73 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -804,7 +804,7 @@ class Renderer:
         # Generate the arrow tip at the end of the arc
         tip_length = radius/4
         cone_radius = radius/16
-        cone_direction = -np.cross(v1, arc.center - arc.points[-1])
+        cone_direction = np.cross(v1, arc.points[-1] - np.array(center))
         tip = pv.Cone(center=arc.points[-1], direction=cone_direction, height=tip_length,
                       radius=cone_radius)
 
-- 
2.43.0


From 8a19b0199f97cb59102810e4a735d1d4116ec5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 42/52] fix: RectangleMesh lost its last row or column of
 elements when adding up the element size drifted past the control point

---
 PyNite/Mesh.py | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index d7c2e44..d1d293e 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -537,45 +537,34 @@ class RectangleMesh(Mesh):
         # Step through each y control point (except the first one which is always zero)
         num_rows = 0
         num_cols = 0
-        y, h = 0, None
         for j in range(1, len(y_control), 1):
             
-            # If this is not the first iteration 'y' will be too high at this point.
-            if j != 1:
-                y -= h
-
             # Determine the mesh size between this y control point and the previous one
-            ny = max(1, (y_control[j] - y_control[j - 1])/mesh_size)
-            h = (y_control[j] - y_control[j - 1])/ceil(ny)
-
-            # Adjust 'y' if this is not the first iteration.
-            if j != 1:
-                y += h
+            ny = ceil(max(1, (y_control[j] - y_control[j - 1])/mesh_size))
+            h = (y_control[j] - y_control[j - 1])/ny
 
-            # Generate nodes between the y control points
-            while round(y, 10) <= round(y_control[j], 10):
+            # Generate nodes between the y control points. The first row was already generated if this is not the first iteration.
+            for row in range(0 if j == 1 else 1, ny + 1, 1):
                 
+                # Calculate each coordinate from the control points (adding up `h` would accumulate rounding errors)
+                y = y_control[j] if row == ny else y_control[j - 1] + row*h
+
                 # Count the number of rows of plates as we go
                 num_rows += 1
 
                 # Step through each x control point (except the first one which is always zero)
-                x, b = 0, None
                 for i in range(1, len(x_control), 1):
                     
-                    # 'x' needs to be adjusted for the same reasons 'y' needed to be adjusted
-                    if i != 1:
-                        x -= b
-
                     # Determine the mesh size between this x control point and the previous one
-                    nx = max(1, (x_control[i] - x_control[i - 1])/mesh_size)
-                    b = (x_control[i] - x_control[i - 1])/ceil(nx)
+                    nx = ceil(max(1, (x_control[i] - x_control[i - 1])/mesh_size))
+                    b = (x_control[i] - x_control[i - 1])/nx
 
-                    if i != 1:
-                        x += b
-
-                    # Generate nodes between the x control points
-                    while round(x, 10) <= round(x_control[i], 10):
+                    # Generate nodes between the x control points. The first column was already generated if this is not the first iteration.
+                    for col in range(0 if i == 1 else 1, nx + 1, 1):
                         
+                        # Calculate each coordinate from the control points, just like the y-coordinates
+                        x = x_control[i] if col == nx else x_control[i - 1] + col*b
+
                         # Count the number of columns of plates as we go
                         if y == 0:
                             num_cols += 1
@@ -602,14 +591,8 @@ class RectangleMesh(Mesh):
                         # Add the node to the mesh
                         self.nodes[node_name] = Node3D(node_name, X, Y, Z)
 
-                        # Move to the next x coordinate
-                        x += b
-
                         # Move to the next node number
                         node_num += 1
-
-                # Move to the next y coordinate
-                y += h
         
         # At this point `num_cols` and `num_rows` represent the number of columns and rows of
         # nodes. We'll adjust these variables to be the number of columns and rows of elements
-- 
2.43.0


From 41ed94050640c4a29ae454d755e9dcbaeb534ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 43/52] fix: RectangleMesh left elements in openings, or
 deleted nodes that are in use, when rounding hid the opening's edges

---
 PyNite/Mesh.py | 38 ++++++--------------------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index d1d293e..d21a643 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -632,30 +632,9 @@ class RectangleMesh(Mesh):
                                                                     self.nodes['N' + str(n_node + node_offset)],
                                                                     self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Initialize a list of nodes and associated elements that fall within opening boundaries
-        # that will be deleted
-        node_del_list = []
+        # Initialize a list of elements that fall within opening boundaries that will be deleted
         element_del_list = []
 
-        # Go back through the mesh and delete any nodes that are in the openings
-        for node in self.nodes.values():
-            
-            # Get the node's position in the mesh's local coordinate sytem.
-            x, y = self.node_local_coords(node)
-
-            # Step through each opening in the mesh
-            for opng in self.openings.values():
-
-                # Determine if the node falls within the boundaries of the opening
-                if (round(x, 10) > round(opng.x_left, 10)
-                and round(x, 10) < round(opng.x_left + opng.width, 10) 
-                and round(y, 10) > round(opng.y_bott, 10) 
-                and round(y, 10) < round(opng.y_bott + opng.height, 10)):
-
-                    # Mark the node for deletion if it's not already marked
-                    if node.name not in node_del_list:
-                        node_del_list.append(node.name)
-                
         # Go back through the mesh and delete any elements that are in the openings
         for element in self.elements.values():
 
@@ -665,11 +644,10 @@ class RectangleMesh(Mesh):
 
             for opng in self.openings.values():
 
-                # Determine if the element falls within the boundaries of the opening
-                if ((round(opng.y_bott + opng.height, 10) >= round(top, 10))
-                and (round(opng.y_bott, 10) <= round(bott, 10))
-                and (round(opng.x_left, 10) <= round(left, 10))
-                and (round(opng.x_left + opng.width, 10) >= round(right, 10))):
+                # Determine if the element falls within the boundaries of the opening. Elements never straddle these
+                # boundaries, so it's enough to check the element's center (which isn't sensitive to rounding errors).
+                if ((opng.y_bott < (bott + top)/2 < opng.y_bott + opng.height)
+                and (opng.x_left < (left + right)/2 < opng.x_left + opng.width)):
 
                     # Mark the element for deletion if it's not already marked
                     if element.name not in element_del_list:
@@ -679,11 +657,7 @@ class RectangleMesh(Mesh):
         for element_name in element_del_list:
             del self.elements[element_name]
 
-        # Delete the nodes marked for deletion
-        for node_name in node_del_list:
-            del self.nodes[node_name]
-        
-        # Find any remaining orphaned nodes around the perimeter of the mesh
+        # Find any nodes that were left orphaned by deleting the elements in the openings
         node_del_list = []
         for node in self.nodes.values():
             if (node not in [element.i_node for element in self.elements.values()]
-- 
2.43.0


From 343098181d5d410c3865227390061080117defd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 44/52] fix: include P-delta effects in the maximum moment of a
 member

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 687bfa5..ecd5e9e 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -149,10 +149,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 1652a68..0852e2f 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1031,9 +1031,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1041,9 +1041,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From 5e4e68642653881cb1213773fca2ac5435840916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 45/52] fix: let axial point loads change the axial force that
 bends a member about its y-axis

---
 PyNite/Member3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 0852e2f..9b7f827 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -2044,6 +2044,7 @@ class Member3D():
                     
                         if ptLoad[0] == 'Fx':
                             SegmentsZ[i].P1 += factor*ptLoad[1]
+                            SegmentsY[i].P1 += factor*ptLoad[1]
                         elif ptLoad[0] == 'Fy':
                             SegmentsZ[i].V1 += factor*ptLoad[1]
                             SegmentsZ[i].M1 -= factor*ptLoad[1]*(x - ptLoad[2])
@@ -2063,6 +2064,7 @@ class Member3D():
                             if ptLoad[0] == 'FZ': FZ = 1
                             force = self.T()[:3, :][:, :3] @ array([FX*ptLoad[1], FY*ptLoad[1], FZ*ptLoad[1]])
                             SegmentsZ[i].P1 += factor*force[0]
+                            SegmentsY[i].P1 += factor*force[0]
                             SegmentsZ[i].V1 += factor*force[1]
                             SegmentsZ[i].M1 -= factor*force[1]*(x - ptLoad[2])
                             SegmentsY[i].V1 += factor*force[2]
-- 
2.43.0


From d33b43c5cca9047f7e629e982e6db09485f11076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 46/52] fix: P-delta deflections along a member diverge, never
 return, or are left out in the local z direction

---
 PyNite/BeamSegY.py | 49 ++++++++++++----------------------------------
 PyNite/BeamSegZ.py | 45 +++++++++---------------------------------
 PyNite/Member3D.py |  4 ++--
 3 files changed, 24 insertions(+), 74 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index ecd5e9e..452ab34 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -29,7 +29,7 @@ class BeamSegY(BeamSegZ):
         
         if P_delta == True:
             delta1 = self.delta1
-            delta = self.deflection(x)
+            delta = self.deflection(x, P_delta)
             M += P1*(delta - delta1)
         
         return M
@@ -55,12 +55,12 @@ class BeamSegY(BeamSegZ):
         L = self.Length()
         EI = self.EI
         
+        theta_x = theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1) + x**4*(w1 - w2)/(24*L))/EI
+
         if P_delta == True:
-            delta_x = self.deflection(x, P_delta)
-            delta_1 = self.delta1
-            return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1 - P1*delta_1 + P1*delta_x) + x**4*(w1 - w2)/(24*L))/EI
-        else:
-            return theta_1 + (-V1*x**2/2 - w1*x**3/6 + x*(-M1) + x**4*(w1 - w2)/(24*L))/EI
+            theta_x += P1/EI*(-theta_1*x**2/2 + (M1*x**3/6 + V1*x**4/24 + w1*x**5/120 + (w2 - w1)*x**6/(720*L))/EI)
+
+        return theta_x
 
 #%%
     # Returns the deflection at a location on the segment
@@ -73,41 +73,18 @@ class BeamSegY(BeamSegZ):
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
     
-        # Iteration is required to calculate P-little-delta effects
-        if P_delta == True:
-
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
+        # Calculate the deflection without P-little-delta effects
+        delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
 
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1 + P1*delta_x)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
-
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
-        
-        # Non-P-delta solutions are not iterative
-        else:
+        # Add the deflection due to the moment the axial force makes with that deflection
+        if P_delta == True:
+            delta_x -= P1/EI*(-theta_1*x**3/6 + (M1*x**4/24 + V1*x**5/120 + w1*x**6/720 + (w2 - w1)*x**7/(5040*L))/EI)
 
-            # Return the calcuated deflection
-            return delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
+        # Return the calculated deflection
+        return delta_x
     
 #%%
     # Returns the maximum moment in the segment
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 08b3948..1726763 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -116,7 +116,7 @@ class BeamSegZ():
         # Include the P-little-delta moment if a P-Delta analysis was run
         if P_delta == True:
             delta_1 = self.delta1
-            delta_x = self.deflection(x)
+            delta_x = self.deflection(x, P_delta)
             M += P1*(delta_x - delta_1)
         
         # Return the computed moment
@@ -171,9 +171,7 @@ class BeamSegZ():
         theta_x = theta_1 - (-V1*x**2/2 - w1*x**3/6 + x*M1 + x**4*(w1 - w2)/(24*L))/EI
 
         if P_delta == True:
-            delta_1 = self.delta1
-            delta_x = self.deflection(x, P_delta)
-            theta_x -= x*(-P1*delta_1 + P1*delta_x)/EI
+            theta_x -= P1/EI*(theta_1*x**2/2 + (-M1*x**3/6 + V1*x**4/24 + w1*x**5/120 + (w2 - w1)*x**6/(720*L))/EI)
         
         # TODO: This is an old equation left for reference. Delete it after the new equation has been proved over time.
         # return theta_1 - (M1*x - V1*x**2/2 - w1*x**3/6 + x**4*(w1 - w2)/(24*L))/(EI)
@@ -191,43 +189,18 @@ class BeamSegZ():
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
         
-        # Iteration is required to calculate P-little-delta effects
-        if P_delta == True:
-
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
+        # Calculate the deflection without P-little-delta effects
+        delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
 
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                # delta_x = delta1 + theta1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
-        
-        # Non-P-delta solutions are not iterative
-        else:
+        # Add the deflection due to the moment the axial force makes with that deflection
+        if P_delta == True:
+            delta_x -= P1/EI*(theta_1*x**3/6 + (-M1*x**4/24 + V1*x**5/120 + w1*x**6/720 + (w2 - w1)*x**7/(5040*L))/EI)
 
-            # Return the calcuated deflection
-            # return delta1 + theta1*x - M1*x**2/(2*EI) + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**5*(-w1 + w2)/(120*EI*L)
-            return delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
+        # Return the calculated deflection
+        return delta_x
 
     def AxialDeflection(self, x):
 
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 9b7f827..c09bfc7 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1588,12 +1588,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return segment.deflection(x - segment.x1)
+                        return segment.deflection(x - segment.x1, P_delta)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1) 
+                    return self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)
         
         else:
 
-- 
2.43.0


From 4492f0f5c48ec45c42c3c12dbabbdbcfffef7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 47/52] fix: carry P-delta moments and deflections on past the
 loads on a member

---
 PyNite/Member3D.py | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index c09bfc7..d5a73d8 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1790,6 +1790,9 @@ class Member3D():
                 self._segment_member(combo_name)
                 self._solved_combo = self.model.load_combos[combo_name]
             
+            # Include P-little-delta effects if a P-Delta analysis has been run
+            P_delta = self.model.solution == 'P-Delta' or self.model.solution == 'Pushover'
+
             d = self.d(combo_name)
             dyi = d[1,0]
             dyj = d[7,0]
@@ -1805,12 +1808,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return (segment.deflection(x - segment.x1)) - (dyi + (dyj-dyi)/L*x)
+                        return (segment.deflection(x - segment.x1, P_delta)) - (dyi + (dyj-dyi)/L*x)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsZ) - 1
-                    return (self.SegmentsZ[lastIndex].deflection(x - self.SegmentsZ[lastIndex].x1))-dyj
+                    return (self.SegmentsZ[lastIndex].deflection(x - self.SegmentsZ[lastIndex].x1, P_delta))-dyj
                     
             elif Direction == 'dz':
                 
@@ -1818,12 +1821,12 @@ class Member3D():
                     
                     if round(x,10) >= round(segment.x1,10) and round(x,10) < round(segment.x2,10):
                         
-                        return (segment.deflection(x - segment.x1)) - (dzi + (dzj-dzi)/L*x)
+                        return (segment.deflection(x - segment.x1, P_delta)) - (dzi + (dzj-dzi)/L*x)
                     
                 if isclose(x, self.L()):
                     
                     lastIndex = len(self.SegmentsY) - 1
-                    return (self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1)) - dzj
+                    return (self.SegmentsY[lastIndex].deflection(x - self.SegmentsY[lastIndex].x1, P_delta)) - dzj
         
         else:
 
@@ -2188,7 +2191,39 @@ class Member3D():
 
                                 SegmentsY[i].V1 += (f1[2] + f2[2])/2*(x2 - x1)
                                 SegmentsY[i].M1 += (x1 - x2)*(2*f1[2]*x1 - 3*f1[2]*x + f1[2]*x2 + f2[2]*x1 - 3*f2[2]*x + 2*f2[2]*x2)/6
+
+        # Include P-little-delta effects if a P-Delta analysis has been run
+        if self.model.solution == 'P-Delta' or self.model.solution == 'Pushover':
+            self._P_delta_segments(SegmentsZ, 1, delta2y)
+            self._P_delta_segments(SegmentsY, -1, delta2z)
                             
+    def _P_delta_segments(self, segments, sign, delta_2):
+        """Adds P-little-delta effects to the segments of one bending axis
+
+        :param segments: The member's segments for the axis.
+        :type segments: list
+        :param sign: 1 for bending about the local z-axis, -1 for bending about the local y-axis.
+        :type sign: int
+        :param delta_2: The local displacement at the end of the member.
+        :type delta_2: float
+        """
+
+        M1 = [segment.M1 for segment in segments]
+
+        for step in (1, 2):
+
+            # Pass the slope, the displacement, and the moment due to the axial force on from segment to segment
+            M_P_delta = 0
+            for i in range(1, len(segments)):
+                segments[i].theta1 = segments[i-1].slope(segments[i-1].Length(), True)
+                segments[i].delta1 = segments[i-1].deflection(segments[i-1].Length(), True)
+                M_P_delta += segments[i-1].P1*(segments[i].delta1 - segments[i-1].delta1)
+                segments[i].M1 = M1[i] + sign*M_P_delta
+
+            # The slope at the start came from first order slope-deflection. Rotate the member so that it meets its end node.
+            if step == 1:
+                segments[0].theta1 += sign*(delta_2 - segments[-1].deflection(segments[-1].Length(), True))/self.L()
+
     def _extract_vector_results(self, segments, x_array, result_name, P_delta=False):
         """Extract results from the given segments using vectorised numpy functions"""
         
-- 
2.43.0


From 6034d643e0b2c1f629d59ccc85f01b58cf54ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 48/52] fix: find peaks of the moment diagram caused by P-delta
 effects

---
 PyNite/BeamSegY.py | 16 ++++++++++++++--
 PyNite/BeamSegZ.py | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 452ab34..ad4e1ba 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -132,7 +132,13 @@ class BeamSegY(BeamSegZ):
         M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
-        return max(M1, M2, M3, M4)
+        M_max = max(M1, M2, M3, M4)
+
+        # P-little-delta effects can move the peak, so look for it at 100 locations along the segment too
+        if P_delta:
+            M_max = max(M_max, max(self.moment(L*i/99, P_delta) for i in range(100)))
+
+        return M_max
 
 #%%
     # Returns the minimum moment in the segment
@@ -180,5 +186,11 @@ class BeamSegY(BeamSegZ):
         M4 = self.moment(x4, P_delta)
     
         # Return the minimum moment
-        return min(M1, M2, M3, M4)
+        M_min = min(M1, M2, M3, M4)
+
+        # P-little-delta effects can move the peak, so look for it at 100 locations along the segment too
+        if P_delta:
+            M_min = min(M_min, min(self.moment(L*i/99, P_delta) for i in range(100)))
+
+        return M_min
     
\ No newline at end of file
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 1726763..bfdf69e 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -312,7 +312,13 @@ class BeamSegZ():
         M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
-        return max(M1, M2, M3, M4)
+        M_max = max(M1, M2, M3, M4)
+
+        # P-little-delta effects can move the peak, so look for it at 100 locations along the segment too
+        if P_delta:
+            M_max = max(M_max, max(self.moment(L*i/99, P_delta) for i in range(100)))
+
+        return M_max
 
     # Returns the minimum moment in the segment
     def min_moment(self, P_delta=False):
@@ -359,7 +365,13 @@ class BeamSegZ():
         M4 = self.moment(x4, P_delta)
     
         # Return the minimum moment
-        return min(M1, M2, M3, M4)
+        M_min = min(M1, M2, M3, M4)
+
+        # P-little-delta effects can move the peak, so look for it at 100 locations along the segment too
+        if P_delta:
+            M_min = min(M_min, min(self.moment(L*i/99, P_delta) for i in range(100)))
+
+        return M_min
 
     # Returns the maximum axial force in the segment
     def max_axial(self):
-- 
2.43.0


From 653ca2fb99994bf0cb16cc39f21de55e74b883a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 49/52] fix: check_mesh_integrity prints all the errors it
 found, not only the first

---
 PyNite/Mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index d21a643..cecce93 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1622,6 +1622,6 @@ def check_mesh_integrity(mesh, console_log=True):
     if console_log == True:
         for error in errors:
             print(error)
-            return ''
+        return ''
     else:
         return errors
-- 
2.43.0


From 3a6a44c9e94a5f008376e9d4afc7f0d4d67d2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 50/52] fix: keep the local axes of members that are horizontal
 but for rounding

The z-axis was the cross product of the x-axis with its own projection on the XZ plane. For a member whose ends differ in Y only by rounding that leaves nothing but rounding errors, so the member was turned about its axis by an arbitrary angle.
---
 PyNite/Member3D.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index d5a73d8..e46fe9e 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -564,19 +564,13 @@ class Member3D():
             # Members neither vertical or horizontal
             else:
 
-                # Find the projection of x on the global XZ plane
-                proj = [x2-x1, 0, z2-z1]
-
                 # Find a vector in the direction of the local z-axis by taking the cross-product
-                # of the local x-axis and its projection on a plane parallel to the XZ plane. This
-                # produces a vector perpendicular to both the local x-axis and its projection. This
-                # vector will always be horizontal since it's parallel to the XZ plane. The order
-                # in which the vectors are 'crossed' has been selected to ensure the y-axis always
-                # has an upward component (i.e. the top of the beam is always on top).
-                if y2 > y1:
-                    z = cross(proj, x)
-                else:
-                    z = cross(x, proj)
+                # of the local x-axis and the global Y-axis. This vector will always be horizontal
+                # since it's parallel to the XZ plane, and the y-axis always has an upward component
+                # (i.e. the top of the beam is always on top). Crossing the x-axis with its own
+                # projection on the XZ plane instead would leave nothing but rounding errors when
+                # the member is horizontal to within rounding.
+                z = cross(x, [0, 1, 0])
 
                 # Divide the z-vector by its magnitude to produce a unit vector of direction cosines
                 z = divide(z, (z[0]**2 + z[1]**2 + z[2]**2)**0.5)
-- 
2.43.0


From d77e56bc1858bcc595568c17981ba778bdcc2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 51/52] fix: treat members that are vertical but for rounding
 as vertical

isclose() without an absolute tolerance never holds next to zero, so a column (or a sub-member of one) at X = 0 and X = 1e-17 got axes that follow the direction of the rounding error.
---
 PyNite/Member3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index e46fe9e..0516a34 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -539,7 +539,7 @@ class Member3D():
             
             # Calculate the remaining direction cosines. The local z-axis will be kept parallel to the global XZ plane in all cases
             # Vertical members
-            if isclose(x1, x2) and isclose(z1, z2):
+            if isclose(x1, x2, abs_tol=1e-9*L) and isclose(z1, z2, abs_tol=1e-9*L):
                 
                 # For vertical members, keep the local y-axis in the XY plane to make 2D problems easier to solve in the XY plane
                 if y2 > y1:
-- 
2.43.0


From ae29a7857e2ad0275680b7aa2ffa513f03070b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 52/52] fix: the pyvista renderer honours show_labels

---
 PyNite/Rendering.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 72a8e73..f932c9c 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -255,7 +255,10 @@ class Renderer:
         label_points = [[node.X, node.Y, node.Z] for node in self.model.nodes.values()]
         labels = [node.name for node in self.model.nodes.values()]
         
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
+        if self._labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
+        elif label_points:
+            self.plotter.add_points(pv.PolyData(label_points), color='grey', point_size=5, render_points_as_spheres=True)
 
         # Check if there are springs in the model
         if self.model.springs:
@@ -265,7 +268,8 @@ class Renderer:
                 self.plot_spring(spring, self.annotation_size, 'grey')
             
             # Render the spring labels
-            self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
+            if self._labels == True:
+                self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
         
         # Render the members
         for member in self.model.members.values():
@@ -274,7 +278,8 @@ class Renderer:
         # Render the member labels
         label_points = [[(member.i_node.X+member.j_node.X)/2, (member.i_node.Y+member.j_node.Y)/2, (member.i_node.Z+member.j_node.Z)/2] for member in self.model.members.values()]
         labels = [member.name for member in self.model.members.values()]
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
+        if self._labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
 
         # Render the deformed shape if requested
         if self.deformed_shape == True:
-- 
2.43.0

