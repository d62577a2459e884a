From 12d24be51b4f22b5f7682699a329073e7b170e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 001/120] fix: octree find must search every cell within the
 tolerance and survive subdivision, reset and rebuild

---
 trunk/src/geometry/GeoOctree.hpp     |  2 +-
 trunk/src/geometry/GeoOctree_Imp.hpp | 72 ++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/trunk/src/geometry/GeoOctree.hpp b/trunk/src/geometry/GeoOctree.hpp
index 9051084..c06991d 100644
--- a/trunk/src/geometry/GeoOctree.hpp
+++ b/trunk/src/geometry/GeoOctree.hpp
@@ -41,7 +41,7 @@ namespace ENigMA
             EOctreeLocation dispatch(CGeoOctreeNode<Real>& anOctreeNode, Real x, Real y, Real z);
             void createNode(CGeoOctreeNode<Real>& anOctreeNode, const CGeoOctreeNode<Real>& anOctreeParent, Integer i);
             void createRecursive(CGeoOctreeNode<Real>& anOctreeNode);
-            CGeoOctreeNode<Real>& findRecursive(CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate);
+            void findRecursive(CGeoOctreeNode<Real>& anOctreeNode, std::vector<Integer>& coordinateIndices, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance);
 
             CGeoBoundingBox<Real> m_boundingBox;
 
diff --git a/trunk/src/geometry/GeoOctree_Imp.hpp b/trunk/src/geometry/GeoOctree_Imp.hpp
index fc43303..e7f530d 100644
--- a/trunk/src/geometry/GeoOctree_Imp.hpp
+++ b/trunk/src/geometry/GeoOctree_Imp.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 namespace ENigMA
 {
     namespace geometry
@@ -27,6 +29,9 @@ namespace ENigMA
         void CGeoOctree<Real>::reset()
         {
             CGeoContainer<CGeoCoordinate<Real>, Real>::reset();
+
+            m_root = CGeoOctreeNode<Real>();
+            m_boundingBox.reset();
         }
 
         template <typename Real>
@@ -136,7 +141,7 @@ namespace ENigMA
                     if (z < zmid)
                         return OL_FRONT_BOTTOM_LEFT;
                     else
-                        return OL_BACK_TOP_LEFT;
+                        return OL_FRONT_TOP_LEFT;
                 }
             }
             else
@@ -238,8 +243,8 @@ namespace ENigMA
                     {
                         // Then we need to construct another node starting from this one
                         createRecursive(anOctreeNode.nodes[i]);
-                        anOctreeNode.setIsLeaf(false);
-                        anOctreeNode.reset();
+                        anOctreeNode.nodes[i].setIsLeaf(false);
+                        anOctreeNode.nodes[i].reset();
                     }
                 }
             }
@@ -248,6 +253,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoOctree<Real>::build()
         {
+            m_root = CGeoOctreeNode<Real>();
+
             // Get bounding box
             for (Integer i = 0; i < static_cast<Integer>(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects.size()); ++i)
                 m_boundingBox.addCoordinate(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i]);
@@ -255,13 +262,13 @@ namespace ENigMA
             const Real C_EPS = std::numeric_limits<Real>::epsilon();
 
             m_root.xmin = m_boundingBox.min().x() - C_EPS;
-            m_root.xmax = m_boundingBox.min().x() + C_EPS;
+            m_root.xmax = m_boundingBox.max().x() + C_EPS;
 
             m_root.ymin = m_boundingBox.min().y() - C_EPS;
-            m_root.ymax = m_boundingBox.min().y() + C_EPS;
+            m_root.ymax = m_boundingBox.max().y() + C_EPS;
 
             m_root.zmin = m_boundingBox.min().z() - C_EPS;
-            m_root.zmax = m_boundingBox.min().z() + C_EPS;
+            m_root.zmax = m_boundingBox.max().z() + C_EPS;
 
             m_root.xmid = (m_boundingBox.min().x() + m_boundingBox.max().x()) * 0.5;
             m_root.ymid = (m_boundingBox.min().y() + m_boundingBox.max().y()) * 0.5;
@@ -273,33 +280,60 @@ namespace ENigMA
             }
 
             createRecursive(m_root);
+            m_root.setIsLeaf(false);
+            m_root.reset();
         }
 
         template <typename Real>
-        CGeoOctreeNode<Real>& CGeoOctree<Real>::findRecursive(CGeoOctreeNode<Real>& anOctreeNode, const CGeoCoordinate<Real>& aCoordinate)
+        void CGeoOctree<Real>::findRecursive(CGeoOctreeNode<Real>& anOctreeNode, std::vector<Integer>& coordinateIndices, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance)
         {
-            Integer octreeLocation = static_cast<Integer>(dispatch(anOctreeNode, aCoordinate.x(), aCoordinate.y(), aCoordinate.z()));
+            if (anOctreeNode.isLeaf())
+            {
+                for (Integer i = 0; i < anOctreeNode.nbCoordinates(); ++i)
+                {
+                    Integer aCoordinateIndex = anOctreeNode.coordinate(i);
+
+                    Real dist = (CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[aCoordinateIndex] - aCoordinate).norm();
+
+                    if (dist <= aTolerance)
+                        coordinateIndices.emplace_back(aCoordinateIndex);
+                }
+
+                return;
+            }
+
+            // Visit every child reached by the box of half-width aTolerance around the coordinate
+            bool visited[8] = { false, false, false, false, false, false, false, false };
+
+            for (Integer i = 0; i < 8; ++i)
+            {
+                Real x = aCoordinate.x() + ((i & 1) ? aTolerance : -aTolerance);
+                Real y = aCoordinate.y() + ((i & 2) ? aTolerance : -aTolerance);
+                Real z = aCoordinate.z() + ((i & 4) ? aTolerance : -aTolerance);
 
-            if (!anOctreeNode.isLeaf())
-                findRecursive(anOctreeNode.nodes[octreeLocation], aCoordinate);
+                Integer octreeLocation = static_cast<Integer>(dispatch(anOctreeNode, x, y, z));
 
-            return anOctreeNode.nodes[octreeLocation];
+                if (!visited[octreeLocation])
+                {
+                    visited[octreeLocation] = true;
+                    findRecursive(anOctreeNode.nodes[octreeLocation], coordinateIndices, aCoordinate, aTolerance);
+                }
+            }
         }
 
         template <typename Real>
         void CGeoOctree<Real>::find(std::vector<Integer>& coordinateIds, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance)
         {
-            CGeoOctreeNode<Real> anOctreeNode = findRecursive(m_root, aCoordinate);
+            std::vector<Integer> coordinateIndices;
 
-            for (Integer i = 0; i < anOctreeNode.nbCoordinates(); ++i)
-            {
-                Integer aCoordinateIndex = anOctreeNode.coordinate(i);
+            findRecursive(m_root, coordinateIndices, aCoordinate, aTolerance);
 
-                Real dist = (CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[aCoordinateIndex] - aCoordinate).norm();
+            // A coordinate on the border of a cell is stored in all the cells it touches
+            std::sort(coordinateIndices.begin(), coordinateIndices.end());
+            coordinateIndices.erase(std::unique(coordinateIndices.begin(), coordinateIndices.end()), coordinateIndices.end());
 
-                if (dist <= aTolerance)
-                    coordinateIds.emplace_back(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjectIds[aCoordinateIndex]);
-            }
+            for (Integer i = 0; i < static_cast<Integer>(coordinateIndices.size()); ++i)
+                coordinateIds.emplace_back(CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjectIds[coordinateIndices[i]]);
         }
     }
 }
-- 
2.43.0


From 977a48b17a685d2491405338503792cda2ad4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 002/120] fix: hash grid must survive rebuild, reset and
 queries far from or degenerate to its box

---
 trunk/src/geometry/GeoHashGrid.hpp     |  2 +
 trunk/src/geometry/GeoHashGrid_Imp.hpp | 53 ++++++++++++++------------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/trunk/src/geometry/GeoHashGrid.hpp b/trunk/src/geometry/GeoHashGrid.hpp
index 9b1561a..3fefe85 100644
--- a/trunk/src/geometry/GeoHashGrid.hpp
+++ b/trunk/src/geometry/GeoHashGrid.hpp
@@ -34,6 +34,8 @@ namespace ENigMA
             CGeoVector<Real> m_adOrig;
             CGeoVector<Real> m_adDelta;
 
+            Integer cellIndex(const Real aPosition, const Integer nbCells) const;
+
         public:
             CGeoHashGrid();
             virtual ~CGeoHashGrid();
diff --git a/trunk/src/geometry/GeoHashGrid_Imp.hpp b/trunk/src/geometry/GeoHashGrid_Imp.hpp
index 66d24d3..4dca66a 100644
--- a/trunk/src/geometry/GeoHashGrid_Imp.hpp
+++ b/trunk/src/geometry/GeoHashGrid_Imp.hpp
@@ -37,6 +37,20 @@ namespace ENigMA
 
             m_coordinateList.clear();
             m_coordinateListPtr.clear();
+            m_boundingBox.reset();
+        }
+
+        template <typename Real>
+        Integer CGeoHashGrid<Real>::cellIndex(const Real aPosition, const Integer nbCells) const
+        {
+            // Clamp before converting: far or degenerate positions do not fit an Integer
+            if (!(aPosition > 0))
+                return 0;
+
+            if (aPosition >= static_cast<Real>(nbCells))
+                return nbCells - 1;
+
+            return static_cast<Integer>(aPosition);
         }
 
         template <typename Real>
@@ -56,7 +70,7 @@ namespace ENigMA
             m_nbCellsXY = m_nbCellsX * m_nbCellsY;
             m_nbCells = m_nbCellsX * m_nbCellsY * m_nbCellsZ;
 
-            m_coordinateListPtr.resize(m_nbCells + 1);
+            m_coordinateListPtr.assign(m_nbCells + 1, 0);
 
             m_adDelta = m_boundingBox.max() - m_boundingBox.min();
 
@@ -95,14 +109,9 @@ namespace ENigMA
                     Real y = CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i].y();
                     Real z = CGeoContainer<CGeoCoordinate<Real>, Real>::m_geometricObjects[i].z();
 
-                    Integer imin = static_cast<Integer>((x - m_boundingBox.min().x()) * dRm1DeltaX);
-                    Integer jmin = static_cast<Integer>((y - m_boundingBox.min().y()) * dRm1DeltaY);
-                    Integer kmin = static_cast<Integer>((z - m_boundingBox.min().z()) * dRm1DeltaZ);
-
-                    // Bound this value with correct values
-                    imin = std::min(std::max(0, imin), static_cast<Integer>(m_nbCellsX - 1));
-                    jmin = std::min(std::max(0, jmin), static_cast<Integer>(m_nbCellsY - 1));
-                    kmin = std::min(std::max(0, kmin), static_cast<Integer>(m_nbCellsZ - 1));
+                    Integer imin = this->cellIndex((x - m_boundingBox.min().x()) * dRm1DeltaX, m_nbCellsX);
+                    Integer jmin = this->cellIndex((y - m_boundingBox.min().y()) * dRm1DeltaY, m_nbCellsY);
+                    Integer kmin = this->cellIndex((z - m_boundingBox.min().z()) * dRm1DeltaZ, m_nbCellsZ);
 
                     // (imin,jmin,kmin) index - structured grid - cell indx
                     Integer indx = imin + jmin * m_nbCellsX + kmin * m_nbCellsXY;
@@ -160,6 +169,10 @@ namespace ENigMA
         template <typename Real>
         void CGeoHashGrid<Real>::find(std::vector<Integer>& coordinateIds, const CGeoCoordinate<Real>& aCoordinate, const Real aTolerance)
         {
+            // Nothing was built since construction or reset
+            if (m_coordinateListPtr.empty())
+                return;
+
             Real dRm1DeltaX = 1.0 / m_adDelta[0];
             Real dRm1DeltaY = 1.0 / m_adDelta[1];
             Real dRm1DeltaZ = 1.0 / m_adDelta[2];
@@ -170,28 +183,18 @@ namespace ENigMA
             Real dZMin = aCoordinate.z() - aTolerance;
 
             // Find in which bucket this point falls
-            Integer imin = static_cast<Integer>((dXMin - m_adOrig[0]) * dRm1DeltaX > std::numeric_limits<Integer>::min() ? (dXMin - m_adOrig[0]) * dRm1DeltaX : std::numeric_limits<Integer>::min());
-            Integer jmin = static_cast<Integer>((dYMin - m_adOrig[1]) * dRm1DeltaY > std::numeric_limits<Integer>::min() ? (dYMin - m_adOrig[1]) * dRm1DeltaY : std::numeric_limits<Integer>::min());
-            Integer kmin = static_cast<Integer>((dZMin - m_adOrig[2]) * dRm1DeltaZ > std::numeric_limits<Integer>::min() ? (dZMin - m_adOrig[2]) * dRm1DeltaZ : std::numeric_limits<Integer>::min());
-
-            // Bound this value with correct values
-            imin = std::min(std::max(0, imin), static_cast<Integer>(m_nbCellsX - 1));
-            jmin = std::min(std::max(0, jmin), static_cast<Integer>(m_nbCellsY - 1));
-            kmin = std::min(std::max(0, kmin), static_cast<Integer>(m_nbCellsZ - 1));
+            Integer imin = this->cellIndex((dXMin - m_adOrig[0]) * dRm1DeltaX, m_nbCellsX);
+            Integer jmin = this->cellIndex((dYMin - m_adOrig[1]) * dRm1DeltaY, m_nbCellsY);
+            Integer kmin = this->cellIndex((dZMin - m_adOrig[2]) * dRm1DeltaZ, m_nbCellsZ);
 
             Real dXMax = aCoordinate.x() + aTolerance;
             Real dYMax = aCoordinate.y() + aTolerance;
             Real dZMax = aCoordinate.z() + aTolerance;
 
             // Find in which bucket this point falls
-            Integer imax = static_cast<Integer>((dXMax - m_adOrig[0]) * dRm1DeltaX < std::numeric_limits<Integer>::max() ? (dXMax - m_adOrig[0]) * dRm1DeltaX : std::numeric_limits<Integer>::max());
-            Integer jmax = static_cast<Integer>((dYMax - m_adOrig[1]) * dRm1DeltaY < std::numeric_limits<Integer>::max() ? (dYMax - m_adOrig[1]) * dRm1DeltaY : std::numeric_limits<Integer>::max());
-            Integer kmax = static_cast<Integer>((dZMax - m_adOrig[2]) * dRm1DeltaZ < std::numeric_limits<Integer>::max() ? (dZMax - m_adOrig[2]) * dRm1DeltaZ : std::numeric_limits<Integer>::max());
-
-            // Bound this value with correct values
-            imax = std::min(std::max(0, imax), static_cast<Integer>(m_nbCellsX - 1));
-            jmax = std::min(std::max(0, jmax), static_cast<Integer>(m_nbCellsY - 1));
-            kmax = std::min(std::max(0, kmax), static_cast<Integer>(m_nbCellsZ - 1));
+            Integer imax = this->cellIndex((dXMax - m_adOrig[0]) * dRm1DeltaX, m_nbCellsX);
+            Integer jmax = this->cellIndex((dYMax - m_adOrig[1]) * dRm1DeltaY, m_nbCellsY);
+            Integer kmax = this->cellIndex((dZMax - m_adOrig[2]) * dRm1DeltaZ, m_nbCellsZ);
 
             // Loop over cells intersecting node Bounding Box
             for (int i = imin; i <= imax; ++i)
-- 
2.43.0


From dc20530db0f218d8198fd905a36765e3e5e14966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 003/120] fix: R-tree and ADT find must honour the tolerance

---
 trunk/src/geometry/GeoAdtree_Imp.hpp | 12 ++++++------
 trunk/src/geometry/GeoRtree_Imp.hpp  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trunk/src/geometry/GeoAdtree_Imp.hpp b/trunk/src/geometry/GeoAdtree_Imp.hpp
index fec9da5..c14791d 100644
--- a/trunk/src/geometry/GeoAdtree_Imp.hpp
+++ b/trunk/src/geometry/GeoAdtree_Imp.hpp
@@ -305,13 +305,13 @@ namespace ENigMA
             b_min[1] = m_boundingBox.min().y();
             b_min[2] = m_boundingBox.min().z();
 
-            b_min[3] = aBoundingBox.min().x();
-            b_min[4] = aBoundingBox.min().y();
-            b_min[5] = aBoundingBox.min().z();
+            b_min[3] = aBoundingBox.min().x() - aTolerance;
+            b_min[4] = aBoundingBox.min().y() - aTolerance;
+            b_min[5] = aBoundingBox.min().z() - aTolerance;
 
-            b_max[0] = aBoundingBox.max().x();
-            b_max[1] = aBoundingBox.max().y();
-            b_max[2] = aBoundingBox.max().z();
+            b_max[0] = aBoundingBox.max().x() + aTolerance;
+            b_max[1] = aBoundingBox.max().y() + aTolerance;
+            b_max[2] = aBoundingBox.max().z() + aTolerance;
 
             b_max[3] = m_boundingBox.max().x();
             b_max[4] = m_boundingBox.max().y();
diff --git a/trunk/src/geometry/GeoRtree_Imp.hpp b/trunk/src/geometry/GeoRtree_Imp.hpp
index e95dbac..3732d3e 100644
--- a/trunk/src/geometry/GeoRtree_Imp.hpp
+++ b/trunk/src/geometry/GeoRtree_Imp.hpp
@@ -75,13 +75,13 @@ namespace ENigMA
             Real b_min[3];
             Real b_max[3];
 
-            b_min[0] = aBoundingBox.min().x();
-            b_min[1] = aBoundingBox.min().y();
-            b_min[2] = aBoundingBox.min().z();
+            b_min[0] = aBoundingBox.min().x() - aTolerance;
+            b_min[1] = aBoundingBox.min().y() - aTolerance;
+            b_min[2] = aBoundingBox.min().z() - aTolerance;
 
-            b_max[0] = aBoundingBox.max().x();
-            b_max[1] = aBoundingBox.max().y();
-            b_max[2] = aBoundingBox.max().z();
+            b_max[0] = aBoundingBox.max().x() + aTolerance;
+            b_max[1] = aBoundingBox.max().y() + aTolerance;
+            b_max[2] = aBoundingBox.max().z() + aTolerance;
 
             boundingBoxIds.clear();
 
-- 
2.43.0


From 90629c8da4c57505ffefd8c17ef6e5aef2a0bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 004/120] fix: ADT must remove by object id and be destructible
 before it is set

---
 trunk/src/geometry/GeoAdtree.hpp     |  5 +++-
 trunk/src/geometry/GeoAdtree_Imp.hpp | 41 +++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/trunk/src/geometry/GeoAdtree.hpp b/trunk/src/geometry/GeoAdtree.hpp
index 385c405..58611d5 100644
--- a/trunk/src/geometry/GeoAdtree.hpp
+++ b/trunk/src/geometry/GeoAdtree.hpp
@@ -9,6 +9,7 @@
 
 #pragma once
 
+#include <map>
 #include <vector>
 
 #include "GeoBoundingBox.hpp"
@@ -47,7 +48,9 @@ namespace ENigMA
 
             Real m_cmin[6], m_cmax[6];
 
-            std::vector<CGeoAdtreeNode6<Real>*> m_nodes;
+            std::map<Integer, CGeoAdtreeNode6<Real>*> m_nodes;
+
+            void clear();
 
         public:
             CGeoAdtree6();
diff --git a/trunk/src/geometry/GeoAdtree_Imp.hpp b/trunk/src/geometry/GeoAdtree_Imp.hpp
index c14791d..a7511f7 100644
--- a/trunk/src/geometry/GeoAdtree_Imp.hpp
+++ b/trunk/src/geometry/GeoAdtree_Imp.hpp
@@ -47,6 +47,7 @@ namespace ENigMA
 
         template <typename Real>
         CGeoAdtree6<Real>::CGeoAdtree6()
+            : m_root(NULL)
         {
         }
 
@@ -56,6 +57,8 @@ namespace ENigMA
             memcpy(m_cmin, acmin, 6 * sizeof(Real));
             memcpy(m_cmax, acmax, 6 * sizeof(Real));
 
+            this->clear();
+
             m_root = new CGeoAdtreeNode6<Real>();
             m_root->sep = (m_cmin[0] + m_cmax[0]) / 2;
         }
@@ -63,18 +66,32 @@ namespace ENigMA
         template <typename Real>
         void CGeoAdtree6<Real>::reset()
         {
-            m_root->deleteChildren();
-            delete m_root;
+            if (m_root == NULL)
+                return;
+
+            this->clear();
+
             m_root = new CGeoAdtreeNode6<Real>();
             m_root->sep = (m_cmin[0] + m_cmax[0]) / 2;
+        }
+
+        template <typename Real>
+        void CGeoAdtree6<Real>::clear()
+        {
+            if (m_root != NULL)
+            {
+                m_root->deleteChildren();
+                delete m_root;
+                m_root = NULL;
+            }
+
             m_nodes.clear();
         }
 
         template <typename Real>
         CGeoAdtree6<Real>::~CGeoAdtree6()
         {
-            m_root->deleteChildren();
-            delete m_root;
+            this->clear();
         }
 
         template <typename Real>
@@ -104,7 +121,7 @@ namespace ENigMA
                     memcpy(node->data, p, 6 * sizeof(Real));
                     node->id = static_cast<Integer>(anId);
 
-                    m_nodes.emplace_back(node);
+                    m_nodes[anId] = node;
 
                     return;
                 }
@@ -134,7 +151,7 @@ namespace ENigMA
             next->id = static_cast<Integer>(anId);
             next->sep = static_cast<Real>((bmin[dir] + bmax[dir]) / 2.0);
 
-            m_nodes.emplace_back(next);
+            m_nodes[anId] = next;
 
             if (lr)
                 node->rightNode = next;
@@ -153,7 +170,14 @@ namespace ENigMA
         template <typename Real>
         void CGeoAdtree6<Real>::remove(Integer anId)
         {
-            CGeoAdtreeNode6<Real>* node = m_nodes[anId];
+            typename std::map<Integer, CGeoAdtreeNode6<Real>*>::iterator it = m_nodes.find(anId);
+
+            if (it == m_nodes.end())
+                return;
+
+            CGeoAdtreeNode6<Real>* node = it->second;
+
+            m_nodes.erase(it);
 
             node->id = -1;
 
@@ -169,6 +193,9 @@ namespace ENigMA
         template <typename Real>
         void CGeoAdtree6<Real>::getIntersecting(const Real bmin[6], const Real bmax[6], std::vector<Integer>& sIds)
         {
+            if (m_root == NULL)
+                return;
+
             const int maxDepth = 1024;
 
             struct node_dir
-- 
2.43.0


From 626575e7b04699870e7fbcf1f9e1a9161f58cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 005/120] fix: polygon normal must not depend on the first
 corner being convex or long

---
 trunk/src/geometry/GeoPolygon_Imp.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index b408d1d..d4318c5 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -69,21 +69,18 @@ namespace ENigMA
                 CGeoVector<Real> v0, v1;
                 CGeoNormal<Real> aNormal;
 
+                // The area vector does not depend on which corner is convex or how short its edges are
                 for (Integer i = 1; i < m_polyline.nbVertices() - 1; ++i)
                 {
-                    // Calculate normal vector of the polygon's plane
-                    v0 = m_polyline.vertex(i + 0) - m_polyline.vertex(i - 1);
-                    v1 = m_polyline.vertex(i + 1) - m_polyline.vertex(i - 1);
+                    v0 = m_polyline.vertex(i + 0) - m_polyline.vertex(0);
+                    v1 = m_polyline.vertex(i + 1) - m_polyline.vertex(0);
 
-                    aNormal = v0.cross(v1);
-
-                    if (aNormal.norm() > std::numeric_limits<Real>::epsilon())
-                    {
-                        aNormal.normalize();
-                        break;
-                    }
+                    aNormal += v0.cross(v1);
                 }
 
+                if (aNormal.norm() > 0.0)
+                    aNormal.normalize();
+
                 this->m_normal = aNormal;
 
                 this->m_bNormal = true;
-- 
2.43.0


From 0f223e017d0ce9f03c5c37ec11c0f1c0f016e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 006/120] fix: cutting a polyhedron must return the two
 opposite pieces

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index c33b46f..ed3d0cb 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -556,16 +556,18 @@ namespace ENigMA
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, const Real aTolerance)
         {
-            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
+            CGeoPlane<Real> aPlaneInv = aPlane;
+            aPlaneInv.invert();
+
+            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
         }
 
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, Real volumeFractionReq, Real& volumeFractionAct, Integer& nIterations, const Integer nMaxIterations, const Real aNormalizedTolerance, const Real aTolerance)
         {
-            CGeoPlane<Real> aPlaneInv;
-            aPlaneInv.normal() = -aPlane.normal();
-            aPlaneInv.setD(aPlane.d());
+            CGeoPlane<Real> aPlaneInv = aPlane;
+            aPlaneInv.invert();
 
             aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, 1.0 - volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
-- 
2.43.0


From 4d1034fb5867788f803fb1dd32159395fecd16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 007/120] fix: polygon clip must pass its tolerance to the
 edges

---
 trunk/src/geometry/GeoPolygon_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index d4318c5..1686015 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -160,7 +160,7 @@ namespace ENigMA
         {
             CGeoPolygon<Real> aPolygon;
 
-            CGeoLineList<Real> aLineList = m_polyline.clip(aPlane);
+            CGeoLineList<Real> aLineList = m_polyline.clip(aPlane, aTolerance);
 
             CGeoPolyline<Real> aPolyline(aLineList, false, aTolerance);
 
-- 
2.43.0


From e1206e0ede8db120aab1d730c24adb4f72436ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 008/120] fix: closing a clipped polyhedron must ignore edges
 its polygons already share

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index ed3d0cb..89a8fb1 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -266,7 +266,7 @@ namespace ENigMA
         template <typename Real>
         void CGeoPolyhedron<Real>::close(CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, const Real aTolerance)
         {
-            CGeoLineList<Real> aLineList;
+            std::vector<CGeoLine<Real>> sLines;
 
             for (auto it = m_polygons.begin(); it != m_polygons.end(); it++)
             {
@@ -282,11 +282,24 @@ namespace ENigMA
 
                     if (d1 <= aTolerance && d2 <= aTolerance)
                     {
-                        aLineList.addLine(aLine);
+                        // An edge already shared by two polygons does not border the hole
+                        auto itMatch = std::find_if(sLines.begin(), sLines.end(), [&](const CGeoLine<Real>& anotherLine) {
+                            return (anotherLine.startPoint() - aLine.endPoint()).norm() <= aTolerance && (anotherLine.endPoint() - aLine.startPoint()).norm() <= aTolerance;
+                        });
+
+                        if (itMatch != sLines.end())
+                            sLines.erase(itMatch);
+                        else
+                            sLines.emplace_back(aLine);
                     }
                 }
             }
 
+            CGeoLineList<Real> aLineList;
+
+            for (const auto& aLine : sLines)
+                aLineList.addLine(aLine);
+
             // Add new polygon
             if (aLineList.nbLines() > 2)
             {
-- 
2.43.0


From fd091ebbcee38414e59c4bf0161726b32935aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 009/120] fix: line setters must refresh the direction, length
 and box

---
 trunk/src/geometry/GeoLine_Imp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 21b99b1..d8dec40 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -43,6 +43,9 @@ namespace ENigMA
         void CGeoLine<Real>::setStartPoint(const CGeoCoordinate<Real>& aPoint1)
         {
             this->m_startPoint = aPoint1;
+            this->m_vector = m_endPoint - aPoint1;
+
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
@@ -50,6 +53,8 @@ namespace ENigMA
         {
             this->m_endPoint = aPoint2;
             this->m_vector = aPoint2 - m_startPoint;
+
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
-- 
2.43.0


From c31aec8ed8a4aa412826a392e8b35ac473154083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 010/120] fix: polygons and polyhedra must not keep measures of
 their previous shape

---
 trunk/src/geometry/GeoPolygon_Imp.hpp    | 2 ++
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 2 ++
 trunk/src/geometry/GeoVolume_Imp.hpp     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index 1686015..d9f9e3f 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -28,6 +28,7 @@ namespace ENigMA
         void CGeoPolygon<Real>::reset()
         {
             m_polyline.reset();
+            CGeoArea<Real>::reset();
         }
 
         template <typename Real>
@@ -40,6 +41,7 @@ namespace ENigMA
         void CGeoPolygon<Real>::setPolyline(const CGeoPolyline<Real>& aPolyline)
         {
             m_polyline = aPolyline;
+            CGeoArea<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index 89a8fb1..22624e0 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -224,6 +224,7 @@ namespace ENigMA
         {
             m_polygons.clear();
             m_polygonIds.clear();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
@@ -243,6 +244,7 @@ namespace ENigMA
         {
             m_polygons[aPolygonId] = aPolygon;
             m_polygonIds.emplace_back(aPolygonId);
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoVolume_Imp.hpp b/trunk/src/geometry/GeoVolume_Imp.hpp
index 7114d89..32060d5 100644
--- a/trunk/src/geometry/GeoVolume_Imp.hpp
+++ b/trunk/src/geometry/GeoVolume_Imp.hpp
@@ -31,6 +31,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoVolume<Real>::reset()
         {
+            CGeoCentroid<Real>::reset();
+
             m_surfaceArea = 0.0;
             m_volume = 0.0;
 
-- 
2.43.0


From 0a9a85bc7e42d74849b74b0dae77ce1fc88a221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 011/120] fix: prism and hexahedron reset must clear their
 vertices and volume

---
 trunk/src/geometry/GeoHexahedron_Imp.hpp      | 3 ++-
 trunk/src/geometry/GeoTriangularPrism_Imp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoHexahedron_Imp.hpp b/trunk/src/geometry/GeoHexahedron_Imp.hpp
index 6e120c9..6c5b3ab 100644
--- a/trunk/src/geometry/GeoHexahedron_Imp.hpp
+++ b/trunk/src/geometry/GeoHexahedron_Imp.hpp
@@ -30,7 +30,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoHexahedron<Real>::reset()
         {
-            // TODO
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
index 7af6a73..5949395 100644
--- a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
@@ -28,7 +28,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoTriangularPrism<Real>::reset()
         {
-            // TODO:
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
-- 
2.43.0


From 3b8112ebebac49ca7019291a05aaf65bf2c6d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 012/120] fix: extruded hexahedra must not be twisted

---
 trunk/src/mesh/MshExtrudedMesher_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
index 2cbd8ac..f35b21a 100644
--- a/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
+++ b/trunk/src/mesh/MshExtrudedMesher_Imp.hpp
@@ -149,9 +149,9 @@ namespace ENigMA
                     aSolidElement.addNodeId(aNodeId3);
                     aSolidElement.addNodeId(aNodeId4);
                     aSolidElement.addNodeId(aNodeId5);
-                    aSolidElement.addNodeId(aNodeId8);
-                    aSolidElement.addNodeId(aNodeId7);
                     aSolidElement.addNodeId(aNodeId6);
+                    aSolidElement.addNodeId(aNodeId7);
+                    aSolidElement.addNodeId(aNodeId8);
 
                     m_mesh.addElement(m_mesh.nextElementId(), aSolidElement);
                 }
-- 
2.43.0


From fca1e20b0f79352f81a28d0ba2b83b69949203cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 013/120] fix: prism and hexahedron volume must hold beyond
 parallelepipeds

---
 trunk/src/geometry/GeoHexahedron_Imp.hpp      | 14 +++++++++-----
 trunk/src/geometry/GeoTriangularPrism_Imp.hpp |  7 +++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/trunk/src/geometry/GeoHexahedron_Imp.hpp b/trunk/src/geometry/GeoHexahedron_Imp.hpp
index 6c5b3ab..a6f4f89 100644
--- a/trunk/src/geometry/GeoHexahedron_Imp.hpp
+++ b/trunk/src/geometry/GeoHexahedron_Imp.hpp
@@ -57,13 +57,17 @@ namespace ENigMA
         {
             if (!this->m_bVolume || bReCalculate)
             {
-                CGeoVector<Real> v1, v2, v3;
+                std::vector<CGeoTetrahedron<Real>> sTetrahedrons;
+                this->decimate(sTetrahedrons);
 
-                v1 = this->m_vertices[1] - this->m_vertices[0];
-                v2 = this->m_vertices[3] - this->m_vertices[0];
-                v3 = this->m_vertices[4] - this->m_vertices[0];
+                this->m_volume = 0.0;
+
+                for (auto& aTetrahedron : sTetrahedrons)
+                {
+                    aTetrahedron.calculateVolume();
+                    this->m_volume += aTetrahedron.volume();
+                }
 
-                this->m_volume = v3.dot(v2.cross(v1));
                 this->m_bVolume = true;
             }
         }
diff --git a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
index 5949395..eb62134 100644
--- a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
@@ -49,13 +49,16 @@ namespace ENigMA
         {
             if (!this->m_bVolume || bReCalculate)
             {
-                CGeoVector<Real> v1, v2, v3;
+                CGeoVector<Real> v1, v2, v3, v4, v5;
 
                 v1 = this->m_vertices[1] - this->m_vertices[0];
                 v2 = this->m_vertices[2] - this->m_vertices[0];
                 v3 = this->m_vertices[3] - this->m_vertices[0];
+                v4 = this->m_vertices[4] - this->m_vertices[0];
+                v5 = this->m_vertices[5] - this->m_vertices[0];
 
-                this->m_volume = 0.5 * v3.dot(v2.cross(v1));
+                // Tetrahedra (0, 1, 2, 5), (0, 1, 5, 4) and (0, 4, 5, 3)
+                this->m_volume = (v5.dot(v2.cross(v1)) + v4.dot(v5.cross(v1)) + v3.dot(v5.cross(v4))) / static_cast<Real>(6.0);
                 this->m_bVolume = true;
             }
         }
-- 
2.43.0


From 14f584d24b54069a26c7399da0e6074ac2d34702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 014/120] fix: sphere and circle boxes must be centred on them,
 the circle's normal is z

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 6 +++---
 trunk/src/geometry/GeoSphere_Imp.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index 0668dbd..a9f60ec 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -83,7 +83,7 @@ namespace ENigMA
         {
             if (!this->m_bNormal || bReCalculate)
             {
-                this->m_normal << 1.0, 0.0, 0.0;
+                this->m_normal << 0.0, 0.0, 1.0;
                 this->m_bNormal = true;
             }
         }
@@ -106,8 +106,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-this->m_radius, -this->m_radius, 0.0);
-                CGeoCoordinate<Real> aCoordinate2(+this->m_radius, +this->m_radius, 0.0);
+                CGeoCoordinate<Real> aCoordinate1(m_center.x() - this->m_radius, m_center.y() - this->m_radius, m_center.z());
+                CGeoCoordinate<Real> aCoordinate2(m_center.x() + this->m_radius, m_center.y() + this->m_radius, m_center.z());
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
diff --git a/trunk/src/geometry/GeoSphere_Imp.hpp b/trunk/src/geometry/GeoSphere_Imp.hpp
index 5274631..5cbe824 100644
--- a/trunk/src/geometry/GeoSphere_Imp.hpp
+++ b/trunk/src/geometry/GeoSphere_Imp.hpp
@@ -123,8 +123,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-m_radius, -m_radius, -m_radius);
-                CGeoCoordinate<Real> aCoordinate2(+m_radius, +m_radius, +m_radius);
+                CGeoCoordinate<Real> aCoordinate1(m_center.x() - m_radius, m_center.y() - m_radius, m_center.z() - m_radius);
+                CGeoCoordinate<Real> aCoordinate2(m_center.x() + m_radius, m_center.y() + m_radius, m_center.z() + m_radius);
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
-- 
2.43.0


From 3259b58da60729804e7b0763bc7aa16c544e9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 015/120] fix: circle through three points must not divide by
 vertical or horizontal chords

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 34 +++++++++++-----------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index a9f60ec..8175bda 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -20,31 +20,23 @@ namespace ENigMA
             Real xDelta_b = aPoint3.x() - aPoint2.x();
             Real yDelta_b = aPoint3.y() - aPoint2.y();
 
-            if (std::fabs(xDelta_a) <= aTolerance * aTolerance && std::fabs(yDelta_b) <= aTolerance * aTolerance)
+            // Intersection of the perpendicular bisectors
+            Real den = xDelta_a * yDelta_b - yDelta_a * xDelta_b;
+
+            if (std::fabs(den) <= aTolerance * aTolerance)
             {
-                this->m_center.x() = 0.5 * (aPoint2.x() + aPoint3.x());
-                this->m_center.y() = 0.5 * (aPoint1.y() + aPoint2.y());
-                this->m_center.z() = aPoint1.z();
-                this->m_radius = (aPoint1 - this->m_center).norm();
+                this->m_center << 0.0, 0.0, 0.0;
+                this->m_radius = 0.0;
             }
             else
             {
-                Real aSlope = yDelta_a / xDelta_a; //
-                Real bSlope = yDelta_b / xDelta_b;
-
-                if (std::fabs(aSlope - bSlope) <= aTolerance * aTolerance)
-                {
-                    this->m_center << 0.0, 0.0, 0.0;
-                    this->m_radius = 0.0;
-                }
-                else
-                {
-                    this->m_center.x() = (aSlope * bSlope * (aPoint1.y() - aPoint3.y()) + bSlope * (aPoint1.x() + aPoint2.x()) - aSlope * (aPoint2.x() + aPoint3.x())) / (2.0 * (bSlope - aSlope));
-                    this->m_center.y() = -(m_center.x() - (aPoint1.x() + aPoint2.x()) * 0.5) / aSlope + (aPoint1.y() + aPoint2.y()) * 0.5;
-                    this->m_center.z() = aPoint1.z();
-
-                    this->m_radius = (aPoint1 - this->m_center).norm();
-                }
+                Real s = ((xDelta_a + xDelta_b) * xDelta_b + (yDelta_a + yDelta_b) * yDelta_b) * static_cast<Real>(0.5) / den;
+
+                this->m_center.x() = static_cast<Real>(0.5) * (aPoint1.x() + aPoint2.x()) - s * yDelta_a;
+                this->m_center.y() = static_cast<Real>(0.5) * (aPoint1.y() + aPoint2.y()) + s * xDelta_a;
+                this->m_center.z() = aPoint1.z();
+
+                this->m_radius = (aPoint1 - this->m_center).norm();
             }
         }
 
-- 
2.43.0


From ba2890512c3ca7c45d817f14ab34c0c9c560de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 016/120] fix: triangulating a concave polygon must only cut
 off ears

---
 trunk/src/geometry/GeoPolygon_Imp.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index d9f9e3f..50a207b 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -212,12 +212,16 @@ namespace ENigMA
             Integer p2 = 1;
             Integer p3 = 2;
 
+            this->calculateNormal();
+
             while (chain.size() > 2)
             {
                 Real minAngle = +2 * 3.142;
 
                 Integer wi = 0;
 
+                bool bFoundEar = false;
+
                 for (Integer i = 0; i < static_cast<Integer>(chain.size()); ++i)
                 {
                     Integer im, ip, ii;
@@ -240,8 +244,23 @@ namespace ENigMA
 
                     Real angle = std::fabs(v1.angle(v2));
 
-                    if (angle < minAngle)
+                    // A corner can be cut off if it is convex and no other corner lies in it
+                    bool bEar = v2.cross(v1).dot(this->m_normal) > 0;
+
+                    for (Integer j = 0; j < static_cast<Integer>(chain.size()) && bEar; ++j)
                     {
+                        if (chain[j] == ii || chain[j] == im || chain[j] == ip)
+                            continue;
+
+                        CGeoVector<Real> v3 = m_polyline.vertex(chain[j]) - m_polyline.vertex(ii);
+
+                        bEar = v2.cross(v3).dot(this->m_normal) < 0 || v3.cross(v1).dot(this->m_normal) < 0 || (v1 - v2).cross(v3 - v2).dot(this->m_normal) < 0;
+                    }
+
+                    if ((bEar && !bFoundEar) || (bEar == bFoundEar && angle < minAngle))
+                    {
+                        bFoundEar = bEar;
+
                         minAngle = angle;
 
                         p1 = ii;
-- 
2.43.0


From e3f4a1b51efccc1ec2c40d6590117d3c7dd21627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:22 +0000
Subject: [PATCH 017/120] fix: a line contains its own start point

---
 trunk/src/geometry/GeoLine_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index d8dec40..5f103a0 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -383,6 +383,12 @@ namespace ENigMA
 
             CGeoVector<Real> v = aPoint - m_startPoint;
 
+            if (v.norm() < aTolerance)
+            {
+                anIntersectionType = IT_VERTEX;
+                return true;
+            }
+
             Real angle = m_vector.angle(v);
 
             if (angle > 3.14 / 180.0) // 1 degree
-- 
2.43.0


From 1efc82d48a242f32d3c4bc002f9ef02f45769697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 018/120] fix: distance between lines must stay on both
 segments

---
 trunk/src/geometry/GeoLine_Imp.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 5f103a0..52a4af0 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -473,6 +473,19 @@ namespace ENigMA
 
             Real mub = (d1343 + d4321 * mua) / d4343;
 
+            if (mub < 0.0 || mub > 1.0)
+            {
+                mub = (mub < 0.0) ? 0.0 : 1.0;
+
+                mua = (d4321 * mub - d1321) / d2121;
+
+                if (mua < 0.0)
+                    mua = 0.0;
+
+                if (mua > 1.0)
+                    mua = 1.0;
+            }
+
             aPoint1 = this->startPoint() + mua * this->vector();
             aPoint2 = aLine.startPoint() + mub * aLine.vector();
 
-- 
2.43.0


From 0ade3b91f566593dfa2e0b297c5a22f88de9d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 019/120] fix: distance from a triangle must consider its edges

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 1ca0251..cb9b7f5 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -344,13 +344,25 @@ namespace ENigMA
                 for (Integer i = 0; i < 3; ++i)
                 {
                     CGeoCoordinate<Real> aVertex = this->vertex(i);
+                    CGeoVector<Real> v = this->vertex((i + 1) % 3) - aVertex;
 
-                    Real dist = (aPoint - aVertex).norm();
+                    // Nearest point of the edge
+                    Real s = v.squaredNorm() > 0.0 ? (aPoint - aVertex).dot(v) / v.squaredNorm() : 0.0;
+
+                    if (s < 0.0)
+                        s = 0.0;
+
+                    if (s > 1.0)
+                        s = 1.0;
+
+                    CGeoCoordinate<Real> aNearest = aVertex + v * s;
+
+                    Real dist = (aPoint - aNearest).norm();
 
                     if (dist < aDistance)
                     {
                         aDistance = dist;
-                        aNewPoint = aVertex;
+                        aNewPoint = aNearest;
                     }
                 }
             }
-- 
2.43.0


From fdd54eeb7f51fd4489670b81632557948e0c47e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 020/120] fix: a point on a triangle's edge is reported as such

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index cb9b7f5..9010916 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -155,7 +155,7 @@ namespace ENigMA
 
             Real c = this->normal().cross(aTriangle.normal()).norm();
 
-            if (c <= aTolerance && std::fabs(d1 - d2) <= aTolerance)
+            if (c <= aTolerance && std::fabs(s1[0]) <= aTolerance && std::fabs(s1[1]) <= aTolerance && std::fabs(s1[2]) <= aTolerance)
             {
                 // Triangles are co-planar
                 for (Integer k = 0; k < 3; ++k)
@@ -317,7 +317,7 @@ namespace ENigMA
                 }
             }
 
-            if (std::fabs(s[(w + 0) % 3] - (s[(w + 1) % 3] + s[(w + 2) % 3])) < aTolerance)
+            if (s[w] <= aTolerance)
                 anIntersectionType = IT_EDGE;
             else
                 anIntersectionType = IT_INTERNAL;
-- 
2.43.0


From 5b0d9c4e15ae17e2038426370a28e0093887ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:30 +0000
Subject: [PATCH 021/120] fix: triangle-line intersection must not use an
 uninitialised normal

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 9010916..6cf8272 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -266,6 +266,8 @@ namespace ENigMA
         template <typename Real>
         bool CGeoTriangle<Real>::intersects(CGeoLine<Real>& aLine, CGeoCoordinate<Real>& aNewPoint, CGeoIntersectionType& anIntersectionType, const Real aTolerance)
         {
+            this->calculateNormal();
+
             CGeoPlane<Real> aPlane(this->normal(), this->normal().dot(this->vertex(0)));
 
             if (aLine.intersects(aPlane, aNewPoint, anIntersectionType, aTolerance))
-- 
2.43.0


From 4b5cd6847bf25b8b750124e61237f3db52e5aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 022/120] fix: convex hull must work in any plane, with
 coincident vertices and be settable again

---
 trunk/src/geometry/GeoConvexHull_Imp.hpp | 37 +++++++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/trunk/src/geometry/GeoConvexHull_Imp.hpp b/trunk/src/geometry/GeoConvexHull_Imp.hpp
index 429bc36..78520b4 100644
--- a/trunk/src/geometry/GeoConvexHull_Imp.hpp
+++ b/trunk/src/geometry/GeoConvexHull_Imp.hpp
@@ -27,25 +27,41 @@ namespace ENigMA
         template <typename Real>
         void CGeoConvexHull<Real>::set(const std::vector<CGeoCoordinate<Real>>& sVertices)
         {
+            m_vertices.clear();
+
             if (sVertices.size() < 3)
                 return;
 
-            CGeoVector<Real> v0 = sVertices.at(1) - sVertices.at(0);
-            CGeoVector<Real> v1 = sVertices.at(2) - sVertices.at(0);
+            // The plane of the vertices: any of them may coincide or be collinear
+            CGeoVector<Real> vx(0.0), vz(0.0);
+
+            for (Integer i = 1; i < static_cast<Integer>(sVertices.size()); ++i)
+            {
+                CGeoVector<Real> v = sVertices.at(i) - sVertices.at(0);
+
+                if (v.squaredNorm() > vx.squaredNorm())
+                    vx = v;
+            }
 
-            CGeoVector<Real> vx = v0;
             vx.normalize();
 
-            CGeoVector<Real> vz = vx.cross(v1);
+            for (Integer i = 1; i < static_cast<Integer>(sVertices.size()); ++i)
+            {
+                CGeoVector<Real> v = vx.cross(sVertices.at(i) - sVertices.at(0));
+
+                if (v.squaredNorm() > vz.squaredNorm())
+                    vz = v;
+            }
+
             vz.normalize();
 
             CGeoVector<Real> vy = vz.cross(vx);
             vy.normalize();
 
             CGeoCoordinateSystem<Real> aCoordinateSystem;
-            aCoordinateSystem.col(0) << vx;
-            aCoordinateSystem.col(1) << vy;
-            aCoordinateSystem.col(2) << vz;
+            aCoordinateSystem.row(0) = vx.transpose();
+            aCoordinateSystem.row(1) = vy.transpose();
+            aCoordinateSystem.row(2) = vz.transpose();
 
             // Project to 2D plane
             std::vector<SVertex<Real>> sExtVertices;
@@ -54,7 +70,7 @@ namespace ENigMA
             {
                 SVertex<Real> aVertex;
 
-                aVertex.v2D = sVertices.at(i);
+                aVertex.v2D = sVertices.at(i) - sVertices.at(0);
                 aVertex.v3D = sVertices.at(i);
 
                 aVertex.v2D.transform(aCoordinateSystem);
@@ -70,6 +86,11 @@ namespace ENigMA
             // Sort points lexicographically
             std::sort(sExtVertices.begin(), sExtVertices.end());
 
+            // Coincident vertices would never be dropped from the hull
+            sExtVertices.erase(std::unique(sExtVertices.begin(), sExtVertices.end(), [](const SVertex<Real>& a, const SVertex<Real>& b) { return !(a < b) && !(b < a); }), sExtVertices.end());
+
+            n = static_cast<Integer>(sExtVertices.size());
+
             // Build lower hull
             for (Integer i = 0; i < n; ++i)
             {
-- 
2.43.0


From a614054ab38e43d65a8206b962dab4ffc8fd5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 023/120] fix: line lists must not keep the length of their
 previous lines; short vertex lists have nothing collinear

---
 trunk/src/geometry/GeoLineList_Imp.hpp   | 4 ++++
 trunk/src/geometry/GeoVertexList_Imp.hpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoLineList_Imp.hpp b/trunk/src/geometry/GeoLineList_Imp.hpp
index d2d1e2e..f4973cf 100644
--- a/trunk/src/geometry/GeoLineList_Imp.hpp
+++ b/trunk/src/geometry/GeoLineList_Imp.hpp
@@ -28,6 +28,8 @@ namespace ENigMA
         void CGeoLineList<Real>::reset()
         {
             m_lines.clear();
+
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
@@ -40,6 +42,8 @@ namespace ENigMA
         void CGeoLineList<Real>::addLine(const CGeoLine<Real>& aLine)
         {
             m_lines.emplace_back(aLine);
+
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoVertexList_Imp.hpp b/trunk/src/geometry/GeoVertexList_Imp.hpp
index 93c3fb6..87c9a0c 100644
--- a/trunk/src/geometry/GeoVertexList_Imp.hpp
+++ b/trunk/src/geometry/GeoVertexList_Imp.hpp
@@ -82,7 +82,7 @@ namespace ENigMA
         template <typename Real>
         void CGeoVertexList<Real>::removeCollinear(const Real aTolerance)
         {
-            if (m_vertices.size() == 0)
+            if (m_vertices.size() < 3)
             {
                 return;
             }
-- 
2.43.0


From 6d35b0bb70a99a2e11ff570c17b93cb1fe844ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:20 +0000
Subject: [PATCH 024/120] fix: mesh copies must keep the grid spacing and the
 boundary face count

---
 trunk/src/mesh/MshMesh_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 49e25ca..cde08ef 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -60,6 +60,15 @@ namespace ENigMA
 
                 addElement(anElementId, anElement);
             }
+
+            m_nbBoundaryFaces = aMesh.m_nbBoundaryFaces;
+
+            m_dx = aMesh.m_dx;
+            m_dy = aMesh.m_dy;
+            m_dz = aMesh.m_dz;
+
+            m_faceCentroid = aMesh.m_faceCentroid;
+            m_elementCentroid = aMesh.m_elementCentroid;
         }
 
         template <typename Real>
-- 
2.43.0


From 9107d6d4920499b7f9333ddb015b4b21ddb8150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 025/120] fix: mesh indices must stay valid after removals and
 re-additions

---
 trunk/src/mesh/MshMesh_Imp.hpp | 98 +++++++++++++++++++++++++++-------
 1 file changed, 80 insertions(+), 18 deletions(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index cde08ef..b64c7ac 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -113,7 +113,13 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addNode(const Integer aNodeId, const ENigMA::mesh::CMshNode<Real>& aNode)
         {
+            const bool bReplace = m_nodes.find(aNodeId) != m_nodes.end();
+
             m_nodes[aNodeId] = aNode;
+
+            if (bReplace)
+                return;
+
             m_nodeIds.emplace_back(aNodeId);
 
             m_nodeIndices[aNodeId] = m_nodeIndex;
@@ -123,7 +129,13 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addFace(const Integer aFaceId, const ENigMA::mesh::CMshFace<Real>& aFace)
         {
+            const bool bReplace = m_faces.find(aFaceId) != m_faces.end();
+
             m_faces[aFaceId] = aFace;
+
+            if (bReplace)
+                return;
+
             m_faceIds.emplace_back(aFaceId);
 
             m_faceIndices[aFaceId] = m_faceIndex;
@@ -133,7 +145,13 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addElement(const Integer anElementId, const ENigMA::mesh::CMshElement<Real>& anElement)
         {
+            const bool bReplace = m_elements.find(anElementId) != m_elements.end();
+
             m_elements[anElementId] = anElement;
+
+            if (bReplace)
+                return;
+
             m_elementIds.emplace_back(anElementId);
 
             m_elementIndices[anElementId] = m_elementIndex;
@@ -143,25 +161,55 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::removeNode(const Integer aNodeId)
         {
-            m_nodes.erase(aNodeId);
+            if (m_nodes.erase(aNodeId) == 0)
+                return;
+
+            // Keep the indices of the following nodes up to date
+            Integer anIndex = m_nodeIndices.at(aNodeId);
+
             m_nodeIndices.erase(aNodeId);
-            m_nodeIds.erase(std::find(m_nodeIds.begin(), m_nodeIds.end(), aNodeId));
+            m_nodeIds.erase(m_nodeIds.begin() + anIndex);
+
+            for (Integer i = anIndex; i < static_cast<Integer>(m_nodeIds.size()); ++i)
+                m_nodeIndices[m_nodeIds.at(i)] = i;
+
+            m_nodeIndex--;
         }
 
         template <typename Real>
         void CMshMesh<Real>::removeFace(const Integer aFaceId)
         {
-            m_faces.erase(aFaceId);
+            if (m_faces.erase(aFaceId) == 0)
+                return;
+
+            // Keep the indices of the following faces up to date
+            Integer anIndex = m_faceIndices.at(aFaceId);
+
             m_faceIndices.erase(aFaceId);
-            m_faceIds.erase(std::find(m_faceIds.begin(), m_faceIds.end(), aFaceId));
+            m_faceIds.erase(m_faceIds.begin() + anIndex);
+
+            for (Integer i = anIndex; i < static_cast<Integer>(m_faceIds.size()); ++i)
+                m_faceIndices[m_faceIds.at(i)] = i;
+
+            m_faceIndex--;
         }
 
         template <typename Real>
         void CMshMesh<Real>::removeElement(const Integer anElementId)
         {
-            m_elements.erase(anElementId);
+            if (m_elements.erase(anElementId) == 0)
+                return;
+
+            // Keep the indices of the following elements up to date
+            Integer anIndex = m_elementIndices.at(anElementId);
+
             m_elementIndices.erase(anElementId);
-            m_elementIds.erase(std::find(m_elementIds.begin(), m_elementIds.end(), anElementId));
+            m_elementIds.erase(m_elementIds.begin() + anIndex);
+
+            for (Integer i = anIndex; i < static_cast<Integer>(m_elementIds.size()); ++i)
+                m_elementIndices[m_elementIds.at(i)] = i;
+
+            m_elementIndex--;
         }
 
         template <typename Real>
@@ -607,12 +655,14 @@ namespace ENigMA
             // Delete nodes
             for (typename std::map<Integer, bool>::const_iterator itr = bDeleteNode.begin(); itr != bDeleteNode.end(); ++itr)
             {
-                Integer aNodeId = itr->first;
-
                 if (itr->second)
-                    removeNode(aNodeId);
+                    m_nodes.erase(itr->first);
             }
 
+            m_nodeIds.erase(std::remove_if(m_nodeIds.begin(), m_nodeIds.end(), [&bDeleteNode](const Integer aNodeId) { return bDeleteNode.at(aNodeId); }), m_nodeIds.end());
+
+            rebuildIndices();
+
             removeInvalidElements();
 
             rebuildIndices();
@@ -693,11 +743,13 @@ namespace ENigMA
             // Delete elements
             for (typename std::map<Integer, bool>::const_iterator itr = bDeleteElement.begin(); itr != bDeleteElement.end(); ++itr)
             {
-                Integer anElementId = itr->first;
-
                 if (itr->second)
-                    removeElement(anElementId);
+                    m_elements.erase(itr->first);
             }
+
+            m_elementIds.erase(std::remove_if(m_elementIds.begin(), m_elementIds.end(), [&bDeleteElement](const Integer anElementId) { return bDeleteElement.at(anElementId); }), m_elementIds.end());
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -727,11 +779,13 @@ namespace ENigMA
             // Delete elements
             for (typename std::map<Integer, bool>::const_iterator itr = bDeleteElement.begin(); itr != bDeleteElement.end(); ++itr)
             {
-                Integer anElementId = itr->first;
-
                 if (itr->second)
-                    removeElement(anElementId);
+                    m_elements.erase(itr->first);
             }
+
+            m_elementIds.erase(std::remove_if(m_elementIds.begin(), m_elementIds.end(), [&bDeleteElement](const Integer anElementId) { return bDeleteElement.at(anElementId); }), m_elementIds.end());
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -747,6 +801,8 @@ namespace ENigMA
                 m_nodeIndices[aNodeId] = i;
             }
 
+            m_nodeIndex = static_cast<Integer>(m_nodeIds.size());
+
             // Rebuild face indices
             m_faceIndices.clear();
 
@@ -757,6 +813,8 @@ namespace ENigMA
                 m_faceIndices[aFaceId] = i;
             }
 
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
+
             // Rebuild element indices
             m_elementIndices.clear();
 
@@ -766,6 +824,8 @@ namespace ENigMA
 
                 m_elementIndices[anElementId] = i;
             }
+
+            m_elementIndex = static_cast<Integer>(m_elementIds.size());
         }
 
         template <typename Real>
@@ -809,11 +869,13 @@ namespace ENigMA
             // Delete nodes
             for (typename std::map<Integer, bool>::const_iterator itr = bDeleteNode.begin(); itr != bDeleteNode.end(); ++itr)
             {
-                Integer aNodeId = itr->first;
-
                 if (itr->second)
-                    removeNode(aNodeId);
+                    m_nodes.erase(itr->first);
             }
+
+            m_nodeIds.erase(std::remove_if(m_nodeIds.begin(), m_nodeIds.end(), [&bDeleteNode](const Integer aNodeId) { return bDeleteNode.at(aNodeId); }), m_nodeIds.end());
+
+            rebuildIndices();
         }
 
         template <typename Real>
-- 
2.43.0


From e6335b738d09e9e26cbd1cdbd16006523821007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 026/120] fix: addMesh and renumber must renumber face, pair
 and element references

---
 trunk/src/mesh/MshMesh_Imp.hpp | 41 ++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index b64c7ac..be693f4 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -216,6 +216,8 @@ namespace ENigMA
         void CMshMesh<Real>::addMesh(const CMshMesh<Real>& aMesh)
         {
             mapNodeIndex sNewNodeIds;
+            mapFaceIndex sNewFaceIds;
+            mapElementIndex sNewElementIds;
 
             for (Integer i = 0; i < aMesh.nbNodes(); ++i)
             {
@@ -234,6 +236,7 @@ namespace ENigMA
 
                 Integer aNewFaceId = nextFaceId();
                 addFace(aNewFaceId, aFace);
+                sNewFaceIds[aFaceId] = aNewFaceId;
                 CMshFace<Real>& aNewFace = face(aNewFaceId);
 
                 for (Integer j = 0; j < aNewFace.nbNodeIds(); ++j)
@@ -250,6 +253,7 @@ namespace ENigMA
 
                 Integer aNewElementId = nextElementId();
                 addElement(aNewElementId, anElement);
+                sNewElementIds[anElementId] = aNewElementId;
                 CMshElement<Real>& aNewElement = element(aNewElementId);
 
                 for (Integer j = 0; j < aNewElement.nbNodeIds(); ++j)
@@ -257,7 +261,29 @@ namespace ENigMA
                     Integer aNodeId = aNewElement.nodeId(j);
                     aNewElement.setNodeId(j, sNewNodeIds.at(aNodeId));
                 }
+
+                for (Integer j = 0; j < aNewElement.nbFaceIds(); ++j)
+                {
+                    Integer aFaceId = aNewElement.faceId(j);
+
+                    if (sNewFaceIds.find(aFaceId) != sNewFaceIds.end())
+                        aNewElement.setFaceId(j, sNewFaceIds.at(aFaceId));
+                }
+            }
+
+            // Renumber references held by the new faces
+            for (typename mapFaceIndex::const_iterator itr = sNewFaceIds.begin(); itr != sNewFaceIds.end(); ++itr)
+            {
+                CMshFace<Real>& aNewFace = face(itr->second);
+
+                if (aNewFace.hasPair() && sNewFaceIds.find(aNewFace.pairFaceId()) != sNewFaceIds.end())
+                    aNewFace.setPairFaceId(sNewFaceIds.at(aNewFace.pairFaceId()));
+
+                if (sNewElementIds.find(aNewFace.elementId()) != sNewElementIds.end())
+                    aNewFace.setElementId(sNewElementIds.at(aNewFace.elementId()));
             }
+
+            m_nbBoundaryFaces += aMesh.m_nbBoundaryFaces;
         }
 
         template <typename Real>
@@ -972,6 +998,7 @@ namespace ENigMA
                 sNewFaces[aNewFaceId] = aFace;
             }
 
+            mapElementIndex sNewElementIds;
             mapElement sNewElements;
 
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
@@ -980,6 +1007,8 @@ namespace ENigMA
                 Integer anOldElementId = m_elementIds.at(i);
                 Integer aNewElementId = i;
 
+                sNewElementIds[anOldElementId] = aNewElementId;
+
                 CMshElement<Real>& anElement = m_elements.at(anOldElementId);
 
                 for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
@@ -991,6 +1020,18 @@ namespace ENigMA
                 sNewElements[aNewElementId] = anElement;
             }
 
+            // Renumber references held by the faces
+            for (typename mapFace::iterator itr = sNewFaces.begin(); itr != sNewFaces.end(); ++itr)
+            {
+                CMshFace<Real>& aFace = itr->second;
+
+                if (aFace.hasPair() && sNewFaceIds.find(aFace.pairFaceId()) != sNewFaceIds.end())
+                    aFace.setPairFaceId(sNewFaceIds.at(aFace.pairFaceId()));
+
+                if (sNewElementIds.find(aFace.elementId()) != sNewElementIds.end())
+                    aFace.setElementId(sNewElementIds.at(aFace.elementId()));
+            }
+
             Integer n = static_cast<Integer>(m_nodeIds.size());
             m_nodeIds.clear();
             for (Integer i = 0; i < n; ++i)
-- 
2.43.0


From 0c3670ca9b25ed9f3a9fd7a55c28527e7fd8cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 027/120] fix: merging nodes follows chains of merged nodes;
 face centers do not depend on the node order

---
 trunk/src/mesh/MshMesh_Imp.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index be693f4..9391993 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -360,9 +360,17 @@ namespace ENigMA
 
                 CGeoCoordinate<Real> aCenterCoordinate(0.0, 0.0, 0.0);
 
+                // Faces with the same nodes must get bitwise the same center whatever the node order
+                std::vector<Integer> sNodeIds;
+
                 for (Integer j = 0; j < m_faces.at(aFaceId).nbNodeIds(); ++j)
+                    sNodeIds.emplace_back(m_faces.at(aFaceId).nodeId(j));
+
+                std::sort(sNodeIds.begin(), sNodeIds.end());
+
+                for (Integer j = 0; j < static_cast<Integer>(sNodeIds.size()); ++j)
                 {
-                    Integer aNodeId = m_faces.at(aFaceId).nodeId(j);
+                    Integer aNodeId = sNodeIds.at(j);
                     CMshNode<Real> aNode = m_nodes.at(aNodeId);
 
                     aCenterCoordinate += aNode;
@@ -646,6 +654,13 @@ namespace ENigMA
                 }
             }
 
+            // A node that absorbed others may itself be absorbed later
+            for (typename mapNodeIndex::iterator itr = sNewNodeIds.begin(); itr != sNewNodeIds.end(); ++itr)
+            {
+                while (itr->second != sNewNodeIds.at(itr->second))
+                    itr->second = sNewNodeIds.at(itr->second);
+            }
+
             // Renumber elements
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
             {
-- 
2.43.0


From 180a5e80c751632cbdf4bf6c0f5b2080f32a4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 028/120] fix: an element starts with unit thickness and reset
 forgets its faces

---
 trunk/src/mesh/MshElement_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index db91077..a61d0d3 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -32,6 +32,7 @@ namespace ENigMA
         template <typename Real>
         CMshElement<Real>::CMshElement(EElementType anElementType)
             : m_elementType(anElementType)
+            , m_thickness(1.0)
         {
         }
 
@@ -104,7 +105,9 @@ namespace ENigMA
         void CMshElement<Real>::reset()
         {
             m_elementType = ET_NONE;
+            m_thickness = 1.0;
             m_nodeIds.clear();
+            m_faceIds.clear();
         }
 
         template <typename Real>
-- 
2.43.0


From ce47f907111c8ebced7033cee5c0bded320da7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 029/120] fix: mesh query sorts the element lists it intersects

---
 trunk/src/mesh/MshMeshQuery_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/mesh/MshMeshQuery_Imp.hpp b/trunk/src/mesh/MshMeshQuery_Imp.hpp
index a548018..6462f11 100644
--- a/trunk/src/mesh/MshMeshQuery_Imp.hpp
+++ b/trunk/src/mesh/MshMeshQuery_Imp.hpp
@@ -37,6 +37,10 @@ namespace ENigMA
                         m_nodeToElement[aNodeId].emplace_back(anElementId);
                 }
             }
+
+            // The intersection of two lists needs them in order
+            for (auto& aNodeToElement : m_nodeToElement)
+                std::sort(aNodeToElement.second.begin(), aNodeToElement.second.end());
         }
 
         template <typename Real>
-- 
2.43.0


From 9c937fabde6dd7bc2f4e6fc0c5b2037595214a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 030/120] fix: structured mesh fills the quadrilateral or
 hexahedron it is given

---
 trunk/src/mesh/MshBasicMesher_Imp.hpp | 32 +++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/trunk/src/mesh/MshBasicMesher_Imp.hpp b/trunk/src/mesh/MshBasicMesher_Imp.hpp
index fea772a..577c5ab 100644
--- a/trunk/src/mesh/MshBasicMesher_Imp.hpp
+++ b/trunk/src/mesh/MshBasicMesher_Imp.hpp
@@ -81,12 +81,11 @@ namespace ENigMA
             Real du, dv;
 
             CGeoVector<Real> aVectorU = aQuadrilateral.vertex(1) - aQuadrilateral.vertex(0);
-            CGeoNormal<Real> aNormalU = aVectorU;
-            aNormalU.normalize();
 
             CGeoVector<Real> aVectorV = aQuadrilateral.vertex(3) - aQuadrilateral.vertex(0);
-            CGeoNormal<Real> aNormalV = aVectorV;
-            aNormalV.normalize();
+
+            // Zero for a parallelogram
+            CGeoVector<Real> aWarpUV = aQuadrilateral.vertex(2) - aQuadrilateral.vertex(0) - aVectorU - aVectorV;
 
             if (nu > 0)
                 du = aVectorU.norm() / nu;
@@ -111,7 +110,10 @@ namespace ENigMA
                 {
                     CMshNode<Real> aNode;
 
-                    aNode = aQuadrilateral.vertex(0) + aNormalU * du * static_cast<Real>(i) + aNormalV * dv * static_cast<Real>(j);
+                    const Real u = nu > 0 ? static_cast<Real>(i) / nu : 0.0;
+                    const Real v = nv > 0 ? static_cast<Real>(j) / nv : 0.0;
+
+                    aNode = aQuadrilateral.vertex(0) + aVectorU * u + aVectorV * v + aWarpUV * (u * v);
 
                     m_mesh.addNode(nn, aNode);
                     nn++;
@@ -175,16 +177,14 @@ namespace ENigMA
         bool CMshBasicMesher<Real>::generate(const CGeoHexahedron<Real>& aHexahedron, const Integer nu, const Integer nv, const Integer nw, bool decimate)
         {
             CGeoVector<Real> aVectorU = (aHexahedron.vertex(1) - aHexahedron.vertex(0));
-            CGeoNormal<Real> aNormalU = aVectorU;
-            aNormalU.normalize();
-
             CGeoVector<Real> aVectorV = aHexahedron.vertex(3) - aHexahedron.vertex(0);
-            CGeoNormal<Real> aNormalV = aVectorV;
-            aNormalV.normalize();
-
             CGeoVector<Real> aVectorW = aHexahedron.vertex(4) - aHexahedron.vertex(0);
-            CGeoNormal<Real> aNormalW = aVectorW;
-            aNormalW.normalize();
+
+            // Zero for a parallelepiped
+            CGeoVector<Real> aWarpUV = aHexahedron.vertex(2) - aHexahedron.vertex(0) - aVectorU - aVectorV;
+            CGeoVector<Real> aWarpUW = aHexahedron.vertex(5) - aHexahedron.vertex(0) - aVectorU - aVectorW;
+            CGeoVector<Real> aWarpVW = aHexahedron.vertex(7) - aHexahedron.vertex(0) - aVectorV - aVectorW;
+            CGeoVector<Real> aWarpUVW = aHexahedron.vertex(6) - aHexahedron.vertex(0) - aVectorU - aVectorV - aVectorW - aWarpUV - aWarpUW - aWarpVW;
 
             Real du, dv, dw;
 
@@ -215,7 +215,11 @@ namespace ENigMA
                     {
                         CMshNode<Real> aNode;
 
-                        aNode = aHexahedron.vertex(0) + aNormalU * du * static_cast<Real>(i) + aNormalV * dv * static_cast<Real>(j) + aNormalW * dw * static_cast<Real>(k);
+                        const Real u = nu > 0 ? static_cast<Real>(i) / nu : 0.0;
+                        const Real v = nv > 0 ? static_cast<Real>(j) / nv : 0.0;
+                        const Real w = nw > 0 ? static_cast<Real>(k) / nw : 0.0;
+
+                        aNode = aHexahedron.vertex(0) + aVectorU * u + aVectorV * v + aVectorW * w + aWarpUV * (u * v) + aWarpUW * (u * w) + aWarpVW * (v * w) + aWarpUVW * (u * v * w);
 
                         m_mesh.addNode(nn, aNode);
                         nn++;
-- 
2.43.0


From 37f5452ec9559785ca3749e183737e629ab97761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 031/120] fix: triangle remeshing works for any element
 numbering

---
 trunk/src/mesh/MshTriangleMesher_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 51f96c1..07184f4 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -468,10 +468,10 @@ namespace ENigMA
         {
             Real x, y;
 
-            std::vector<bool> sRemeshed;
+            std::map<Integer, bool> sRemeshed;
             for (Integer i = 0; i < aMesh.nbElements(); ++i)
             {
-                sRemeshed.emplace_back(false);
+                sRemeshed[aMesh.elementId(i)] = false;
             }
 
             // Split edge mesh according to local mesh size
-- 
2.43.0


From 33a7567c8acb273d740ec1868bcd63f67137beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 032/120] fix: surface meshers forget the interior points of an
 earlier mesh

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 2 ++
 trunk/src/mesh/MshTriangleMesher_Imp.hpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 3a73f25..a25ef01 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -405,6 +405,8 @@ namespace ENigMA
             }
 
             // Add interior nodes
+            this->m_interiorNodes.clear();
+
             for (Integer i = 0; i < static_cast<Integer>(sInteriorPoints.size()); ++i)
             {
                 Integer aNewNodeId = this->m_surfaceMesh.nextNodeId();
diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 07184f4..98875ce 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -801,6 +801,8 @@ namespace ENigMA
             }
 
             // Add interior nodes
+            m_interiorNodes.clear();
+
             SNode<Real> anInteriorNode;
 
             for (Integer i = 0; i < static_cast<Integer>(sInteriorPoints.size()); ++i)
-- 
2.43.0


From 013e8c73ea4331ba67fe1801a6b1665740d4e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 033/120] fix: quadrilateral mesher moved existing nodes,
 filled square holes and laid quadrilaterals over meshed area

---
 trunk/src/mesh/MshQuadrilateralMesher.hpp     |  1 +
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 49 ++++++++++++++++---
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher.hpp b/trunk/src/mesh/MshQuadrilateralMesher.hpp
index 985f907..07d9f7b 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher.hpp
@@ -30,6 +30,7 @@ namespace ENigMA
             void cleanDuplicateEdges(std::vector<Integer>& sEdges, const Real aTolerance = 0.0) override;
 
             inline bool quadrilateralContainsNode(CMshNode<Real>& aNode1, CMshNode<Real>& aNode2, CMshNode<Real>& aNode3, CMshNode<Real>& aNode4, Integer& aNodeId, std::vector<Integer>& sNodes, const Real aTolerance = 0.0);
+            bool frontHasEdge(const Integer aNodeId1, const Integer aNodeId2, const std::vector<Integer>& sEdges);
             void addQuadrilateral(SMshAdvancingFrontEdge<Real>& anAdvEdge, const Integer aNodeId3, const Integer aNodeId4, std::vector<Integer>& sEdges, const Real aTolerance);
 
             bool advancingFrontQuadMeshing(const Real meshSize, Integer& maxNbElements, Real minMeshSize, Real maxMeshSize, Real sizeFactor = 1.0, Real shrinkFactor = 1.0, Real expandFactor = 1.0, Real minQuality = 0.0, const bool bAddNodes = true, const bool bCheckDelaunay = false, const Real aTolerance = 0.0);
diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index a25ef01..072c9f2 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -96,6 +96,20 @@ namespace ENigMA
             return false;
         }
 
+        template <typename Real>
+        bool CMshQuadrilateralMesher<Real>::frontHasEdge(const Integer aNodeId1, const Integer aNodeId2, const std::vector<Integer>& sEdges)
+        {
+            for (Integer j = 0; j < static_cast<Integer>(sEdges.size()); ++j)
+            {
+                const SMshAdvancingFrontEdge<Real>& anEdge = this->m_anAdvFront.at(sEdges[j]);
+
+                if (!anEdge.remove && anEdge.nodeId[0] == aNodeId1 && anEdge.nodeId[1] == aNodeId2)
+                    return true;
+            }
+
+            return false;
+        }
+
         template <typename Real>
         void CMshQuadrilateralMesher<Real>::addQuadrilateral(SMshAdvancingFrontEdge<Real>& anAdvEdge, const Integer aNodeId3, const Integer aNodeId4, std::vector<Integer>& sEdges, const Real aTolerance)
         {
@@ -586,9 +600,18 @@ namespace ENigMA
 
                 if ((aNodeId3 == aNodeId5 && aNodeId4 == aNodeId6) || (aNodeId3 == aNodeId6 && aNodeId4 == aNodeId5))
                 {
-                    this->addQuadrilateral(anAdvEdge, aNodeId3, aNodeId4, sEdges, aTolerance);
-                    res = true;
-                    continue;
+                    CMshNode<Real>& aNode3 = this->m_surfaceMesh.node(aNodeId3);
+                    CMshNode<Real>& aNode4 = this->m_surfaceMesh.node(aNodeId4);
+
+                    // Four edges which go around a hole do not enclose a quadrilateral
+                    Integer wNodeId;
+
+                    if ((aNode4 - aNode1).cross(aNode3 - aNode2).z() > aTolerance * aTolerance && !this->quadrilateralContainsNode(aNode1, aNode2, aNode4, aNode3, wNodeId, sNodes, aTolerance))
+                    {
+                        this->addQuadrilateral(anAdvEdge, aNodeId3, aNodeId4, sEdges, aTolerance);
+                        res = true;
+                        continue;
+                    }
                 }
 
                 if (aNodeId3 == aNodeId4)
@@ -772,6 +795,10 @@ namespace ENigMA
                     if (q3 > q3max)
                         q3 += this->edgeOk(anAdvEdge, aNewNode1, aNewNode2, sEdges, aTolerance) ? 0.0 : -2.0;
 
+                    // An edge which is in the front already has the other side free
+                    if (this->frontHasEdge(aNodeId1, aNewNodeId1, sEdges) || this->frontHasEdge(aNewNodeId1, aNewNodeId2, sEdges) || this->frontHasEdge(aNewNodeId2, aNodeId2, sEdges))
+                        q3 -= 2.0;
+
                     if (q3 > q3max)
                     {
                         Integer wNodeId;
@@ -814,7 +841,7 @@ namespace ENigMA
 
                     Real dmin1 = this->findShortestDistance(sEdges, aLine1, anAdvEdgeId, aTolerance);
 
-                    if (dmin1 > baseHeightSize * sizeFactor * shrinkFactor * 0.25 && dmin1 < baseHeightSize * sizeFactor * expandFactor)
+                    if (q1max <= minQuality && dmin1 > baseHeightSize * sizeFactor * shrinkFactor * 0.25 && dmin1 < baseHeightSize * sizeFactor * expandFactor)
                         aNewNode1 = aNode1 + v * dmin1 * 0.5;
 
                     aLine2.reset();
@@ -823,7 +850,7 @@ namespace ENigMA
 
                     Real dmin2 = this->findShortestDistance(sEdges, aLine2, anAdvEdgeId, aTolerance);
 
-                    if (dmin2 > baseHeightSize * sizeFactor * shrinkFactor * 0.25 && dmin2 < baseHeightSize * sizeFactor * expandFactor)
+                    if (q2max <= minQuality && dmin2 > baseHeightSize * sizeFactor * shrinkFactor * 0.25 && dmin2 < baseHeightSize * sizeFactor * expandFactor)
                         aNewNode2 = aNode2 + v * dmin2 * 0.5;
 
                     aNewQuadrilateral4.reset();
@@ -849,6 +876,9 @@ namespace ENigMA
                         if (q4 > 1.5 * minQuality)
                             q4 += this->edgeOk(anAdvEdge, aNewNode1, aNewNode2, sEdges, aTolerance) ? 0.0 : -2.0;
 
+                        if (this->frontHasEdge(aNodeId1, aNewNodeId1, sEdges) || this->frontHasEdge(aNewNodeId1, aNewNodeId2, sEdges) || this->frontHasEdge(aNewNodeId2, aNodeId2, sEdges))
+                            q4 -= 2.0;
+
                         if (q4 > 1.5 * minQuality)
                         {
                             Integer wNodeId;
@@ -857,9 +887,12 @@ namespace ENigMA
 
                         if (q4 > 1.5 * minQuality)
                         {
-                            // Create a new node
-                            this->m_surfaceMesh.addNode(aNewNodeId1, aNewNode1);
-                            this->m_surfaceMesh.addNode(aNewNodeId2, aNewNode2);
+                            // Create new nodes, leaving existing ones where they are
+                            if (q1max <= minQuality)
+                                this->m_surfaceMesh.addNode(aNewNodeId1, aNewNode1);
+
+                            if (q2max <= minQuality)
+                                this->m_surfaceMesh.addNode(aNewNodeId2, aNewNode2);
 
                             this->addQuadrilateral(anAdvEdge, aNewNodeId1, aNewNodeId2, sEdges, aTolerance);
                             res = true;
-- 
2.43.0


From d5bc865ca5f7bf1e7144fe1c0fc997524ef5fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 034/120] fix: collapsing edges inverted triangles and kept
 degenerate ones

---
 trunk/src/mesh/MshTriangleMesher_Imp.hpp | 153 ++++++++++++++++++-----
 1 file changed, 124 insertions(+), 29 deletions(-)

diff --git a/trunk/src/mesh/MshTriangleMesher_Imp.hpp b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
index 98875ce..e094843 100644
--- a/trunk/src/mesh/MshTriangleMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTriangleMesher_Imp.hpp
@@ -11,6 +11,7 @@
 
 #include <iostream>
 #include <algorithm>
+#include <set>
 
 #include "GeoCircle.hpp"
 #include "GeoLine.hpp"
@@ -1528,6 +1529,20 @@ namespace ENigMA
                 }
             }
 
+            // Elements around each node
+            std::map<Integer, std::vector<Integer>> sNodeElementIds;
+
+            for (Integer i = 0; i < aMesh.nbElements(); ++i)
+            {
+                Integer anElementId = aMesh.elementId(i);
+                CMshElement<Real>& anElement = aMesh.element(anElementId);
+
+                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                    sNodeElementIds[anElement.nodeId(j)].emplace_back(anElementId);
+            }
+
+            std::vector<Integer> sCollapsedIds;
+
             for (Integer i = 0; i < aMesh.nbElements(); ++i)
             {
                 Integer anElementId = aMesh.elementId(i);
@@ -1541,50 +1556,130 @@ namespace ENigMA
                     Integer aNodeId1 = anElement.nodeId((j + 0) % 3);
                     Integer aNodeId2 = anElement.nodeId((j + 1) % 3);
 
-                    CMshNode<Real>& aNode1 = aMesh.node(aNodeId1);
-                    CMshNode<Real>& aNode2 = aMesh.node(aNodeId2);
+                    if (bBoundaryNode.at(aNodeId2))
+                        continue;
+
+                    const CMshNode<Real>& aNode1 = aMesh.node(aNodeId1);
+                    const CMshNode<Real>& aNode2 = aMesh.node(aNodeId2);
 
                     Real anEdgeLength = (aNode1 - aNode2).norm();
 
-                    if (bBoundaryNode.at(aNodeId2))
+                    if (anEdgeLength >= collapseSize * 0.75)
                         continue;
 
-                    if (anEdgeLength < collapseSize * 0.75)
+                    // The elements which remain must keep their orientation, the two nodes must share two neighbors only
+                    bool bCollapse = true;
+
+                    std::set<Integer> sNeighborIds1;
+                    std::set<Integer> sNeighborIds2;
+
+                    for (Integer anId : sNodeElementIds[aNodeId1])
                     {
-                        // Try to collapse
-                        aNode2 = aNode1;
-                        anElement.setElementType(ET_NONE);
-                        break;
+                        const CMshElement<Real>& aNeighbor = aMesh.element(anId);
+
+                        for (Integer k = 0; k < aNeighbor.nbNodeIds() && aNeighbor.elementType() != ET_NONE; ++k)
+                            sNeighborIds1.insert(aNeighbor.nodeId(k));
                     }
-                }
-            }
 
-            // Delete invalid elements
-            for (Integer i = 0; i < aMesh.nbElements(); ++i)
-            {
-                Integer anElementId = aMesh.elementId(i);
-                CMshElement<Real>& anElement = aMesh.element(anElementId);
+                    for (Integer anId : sNodeElementIds[aNodeId2])
+                    {
+                        const CMshElement<Real>& aNeighbor = aMesh.element(anId);
 
-                if (anElement.elementType() == ET_NONE)
-                {
-                    aMesh.removeElement(anElementId);
-                }
-            }
+                        if (aNeighbor.elementType() == ET_NONE)
+                            continue;
 
-            aMesh.mergeNodes(aTolerance);
-            aMesh.renumber();
+                        if (aNeighbor.elementType() != ET_TRIANGLE)
+                        {
+                            bCollapse = false;
+                            break;
+                        }
 
-            for (Integer i = 0; i < aMesh.nbElements(); ++i)
-            {
-                Integer anElementId = aMesh.elementId(i);
-                CMshElement<Real>& anElement = aMesh.element(anElementId);
+                        CMshTriangle<Real> aTriangle1;
+                        CMshTriangle<Real> aTriangle2;
 
-                if (anElement.elementType() == ET_NONE)
-                {
-                    aMesh.element(anElementId).setElementType(ET_TRIANGLE);
+                        bool bShared = false;
+
+                        for (Integer k = 0; k < 3; ++k)
+                        {
+                            Integer aNodeId = aNeighbor.nodeId(k);
+
+                            if (aNodeId == aNodeId1)
+                                bShared = true;
+
+                            sNeighborIds2.insert(aNodeId);
+
+                            aTriangle1.addVertex(aMesh.node(aNodeId));
+                            aTriangle2.addVertex(aMesh.node(aNodeId == aNodeId2 ? aNodeId1 : aNodeId));
+                        }
+
+                        if (bShared)
+                            continue;
+
+                        aTriangle1.calculateArea();
+                        aTriangle2.calculateArea();
+
+                        if (aTriangle2.area() <= aTriangle1.area() * 1E-3 || aTriangle1.normal().dot(aTriangle2.normal()) <= 0.0)
+                        {
+                            bCollapse = false;
+                            break;
+                        }
+                    }
+
+                    Integer nbShared = 0;
+
+                    for (Integer anId : sNeighborIds2)
+                    {
+                        if (anId != aNodeId1 && anId != aNodeId2 && sNeighborIds1.find(anId) != sNeighborIds1.end())
+                            nbShared++;
+                    }
+
+                    if (!bCollapse || nbShared != 2)
+                        continue;
+
+                    // Collapse
+                    for (Integer anId : sNodeElementIds[aNodeId2])
+                    {
+                        CMshElement<Real>& aNeighbor = aMesh.element(anId);
+
+                        if (aNeighbor.elementType() == ET_NONE)
+                            continue;
+
+                        bool bShared = false;
+
+                        for (Integer k = 0; k < 3; ++k)
+                        {
+                            if (aNeighbor.nodeId(k) == aNodeId1)
+                                bShared = true;
+                        }
+
+                        if (bShared)
+                        {
+                            aNeighbor.setElementType(ET_NONE);
+                            sCollapsedIds.emplace_back(anId);
+                            continue;
+                        }
+
+                        for (Integer k = 0; k < 3; ++k)
+                        {
+                            if (aNeighbor.nodeId(k) == aNodeId2)
+                                aNeighbor.setNodeId(k, aNodeId1);
+                        }
+
+                        sNodeElementIds[aNodeId1].emplace_back(anId);
+                    }
+
+                    sNodeElementIds[aNodeId2].clear();
+                    break;
                 }
             }
 
+            for (Integer anId : sCollapsedIds)
+                aMesh.removeElement(anId);
+
+            aMesh.removeDanglingNodes();
+            aMesh.mergeNodes(aTolerance);
+            aMesh.renumber();
+
             aMesh.generateFaces(aTolerance);
         }
     }
-- 
2.43.0


From b93c7eb3f937c14e07e0f2c3906116a2ee58167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 035/120] fix: correct wrong quadrature points and weights

---
 trunk/src/integration/IntBeam_Imp.hpp         |  6 +-
 trunk/src/integration/IntHexahedron_Imp.hpp   |  6 +-
 .../src/integration/IntQuadrilateral_Imp.hpp  | 58 +++++++--------
 trunk/src/integration/IntTriangle_Imp.hpp     |  6 +-
 .../integration/IntTriangularPrism_Imp.hpp    | 74 +++++++++----------
 5 files changed, 75 insertions(+), 75 deletions(-)

diff --git a/trunk/src/integration/IntBeam_Imp.hpp b/trunk/src/integration/IntBeam_Imp.hpp
index 0525147..00209dc 100644
--- a/trunk/src/integration/IntBeam_Imp.hpp
+++ b/trunk/src/integration/IntBeam_Imp.hpp
@@ -50,11 +50,11 @@ namespace ENigMA
             case 3:
 
                 m_xi[0] = +0.0000000000;
-                m_wxi[0] = +0.8888888888;
+                m_wxi[0] = +0.8888888889;
                 m_xi[1] = -0.7745966692;
-                m_wxi[0] = +0.5555555555;
+                m_wxi[1] = +0.5555555556;
                 m_xi[2] = +0.7745966692;
-                m_wxi[1] = +0.5555555555;
+                m_wxi[2] = +0.5555555556;
                 break;
 
             case 4:
diff --git a/trunk/src/integration/IntHexahedron_Imp.hpp b/trunk/src/integration/IntHexahedron_Imp.hpp
index 0613272..2368e84 100644
--- a/trunk/src/integration/IntHexahedron_Imp.hpp
+++ b/trunk/src/integration/IntHexahedron_Imp.hpp
@@ -144,7 +144,7 @@ namespace ENigMA
                 m_weta[6] = 0.5555555556;
                 m_wzeta[6] = 0.5555555556;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
+                m_eta[7] = +0.7745966692;
                 m_zeta[7] = -0.7745966692;
                 m_wxi[7] = 0.8888888889;
                 m_weta[7] = 0.5555555556;
@@ -198,7 +198,7 @@ namespace ENigMA
                 m_weta[15] = 0.5555555556;
                 m_wzeta[15] = 0.5555555556;
                 m_xi[16] = +0.0000000000;
-                m_eta[16] = -0.7745966692;
+                m_eta[16] = +0.7745966692;
                 m_zeta[16] = +0.7745966692;
                 m_wxi[16] = 0.8888888889;
                 m_weta[16] = 0.5555555556;
@@ -252,7 +252,7 @@ namespace ENigMA
                 m_weta[24] = 0.5555555556;
                 m_wzeta[24] = 0.8888888889;
                 m_xi[25] = +0.0000000000;
-                m_eta[25] = -0.7745966692;
+                m_eta[25] = +0.7745966692;
                 m_zeta[25] = +0.0000000000;
                 m_wxi[25] = 0.8888888889;
                 m_weta[25] = 0.5555555556;
diff --git a/trunk/src/integration/IntQuadrilateral_Imp.hpp b/trunk/src/integration/IntQuadrilateral_Imp.hpp
index 11a9a9d..48dc312 100644
--- a/trunk/src/integration/IntQuadrilateral_Imp.hpp
+++ b/trunk/src/integration/IntQuadrilateral_Imp.hpp
@@ -65,39 +65,39 @@ namespace ENigMA
 
             case 8:
 
-                // TODO: CHECK THIS!
-                m_xi[0] = -0.7745966692;
-                m_eta[0] = -0.7745966692;
-                m_wxi[0] = 0.5555555556;
-                m_weta[0] = 0.5555555556;
-                m_xi[1] = +0.7745966692;
-                m_eta[1] = -0.7745966692;
-                m_wxi[1] = 0.5555555556;
-                m_weta[1] = 0.5555555556;
-                m_xi[2] = -0.7745966692;
-                m_eta[2] = +0.7745966692;
-                m_wxi[2] = 0.5555555556;
-                m_weta[2] = 0.5555555556;
-                m_xi[3] = +0.7745966692;
-                m_eta[3] = +0.7745966692;
-                m_wxi[3] = 0.5555555556;
-                m_weta[3] = 0.5555555556;
-                m_xi[4] = -0.7745966692;
+                // Degree 5 rule: corners at sqrt(7/9), mid sides at sqrt(7/15)
+                m_xi[0] = -0.8819171037;
+                m_eta[0] = -0.8819171037;
+                m_wxi[0] = 9.0 / 49.0;
+                m_weta[0] = 1.0;
+                m_xi[1] = +0.8819171037;
+                m_eta[1] = -0.8819171037;
+                m_wxi[1] = 9.0 / 49.0;
+                m_weta[1] = 1.0;
+                m_xi[2] = -0.8819171037;
+                m_eta[2] = +0.8819171037;
+                m_wxi[2] = 9.0 / 49.0;
+                m_weta[2] = 1.0;
+                m_xi[3] = +0.8819171037;
+                m_eta[3] = +0.8819171037;
+                m_wxi[3] = 9.0 / 49.0;
+                m_weta[3] = 1.0;
+                m_xi[4] = -0.6831300511;
                 m_eta[4] = +0.0000000000;
-                m_wxi[4] = 0.5555555556;
-                m_weta[4] = 0.8888888889;
-                m_xi[5] = +0.7745966692;
+                m_wxi[4] = 40.0 / 49.0;
+                m_weta[4] = 1.0;
+                m_xi[5] = +0.6831300511;
                 m_eta[5] = +0.0000000000;
-                m_wxi[5] = 0.5555555556;
-                m_weta[5] = 0.8888888889;
+                m_wxi[5] = 40.0 / 49.0;
+                m_weta[5] = 1.0;
                 m_xi[6] = +0.0000000000;
-                m_eta[6] = -0.7745966692;
-                m_wxi[6] = 0.8888888889;
-                m_weta[6] = 0.5555555556;
+                m_eta[6] = -0.6831300511;
+                m_wxi[6] = 40.0 / 49.0;
+                m_weta[6] = 1.0;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
-                m_wxi[7] = 0.8888888889;
-                m_weta[7] = 0.5555555556;
+                m_eta[7] = +0.6831300511;
+                m_wxi[7] = 40.0 / 49.0;
+                m_weta[7] = 1.0;
                 break;
             }
         }
diff --git a/trunk/src/integration/IntTriangle_Imp.hpp b/trunk/src/integration/IntTriangle_Imp.hpp
index 5bc02f6..b530f13 100644
--- a/trunk/src/integration/IntTriangle_Imp.hpp
+++ b/trunk/src/integration/IntTriangle_Imp.hpp
@@ -48,7 +48,7 @@ namespace ENigMA
                 const Real o1beta1[1] = { 3.33333333333333e-001 };
                 const Real o1beta2[1] = { 3.33333333333333e-001 };
                 const Real o1beta3[1] = { 3.33333333333333e-001 };
-                const Real o1wbeta[1] = { 1.0 };
+                const Real o1wbeta[1] = { 0.5 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -66,7 +66,7 @@ namespace ENigMA
                 const Real o3beta1[3] = { 0.5, 0.0, 0.5 };
                 const Real o3beta2[3] = { 0.0, 0.5, 0.5 };
                 const Real o3beta3[3] = { 0.5, 0.5, 0.0 };
-                const Real o3wbeta[3] = { 1.0, 1.0, 1.0 };
+                const Real o3wbeta[3] = { 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -103,7 +103,7 @@ namespace ENigMA
                 const Real o7beta1[7] = { 3.33333333333333e-001, 1.01286507323457e-001, 1.01286507323457e-001, 7.97426985353088e-001, 4.70142064105115e-001, 4.70142064105115e-001, 5.97158717897699e-002 };
                 const Real o7beta2[7] = { 3.33333333333333e-001, 1.01286507323456e-001, 7.97426985353087e-001, 1.01286507323456e-001, 5.97158717897700e-002, 4.70142064105115e-001, 4.70142064105115e-001 };
                 const Real o7beta3[7] = { 3.33333333333333e-001, 7.97426985353087e-001, 1.01286507323456e-001, 1.01286507323456e-001, 4.70142064105115e-001, 5.97158717897700e-002, 4.70142064105115e-001 };
-                const Real o7wbeta[7] = { 1.12515000150000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
+                const Real o7wbeta[7] = { 1.12500000000000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
diff --git a/trunk/src/integration/IntTriangularPrism_Imp.hpp b/trunk/src/integration/IntTriangularPrism_Imp.hpp
index 9f81f86..7b4da23 100644
--- a/trunk/src/integration/IntTriangularPrism_Imp.hpp
+++ b/trunk/src/integration/IntTriangularPrism_Imp.hpp
@@ -36,11 +36,11 @@ namespace ENigMA
             {
             case 1:
 
-                m_xi[0] = 0.0;
-                m_eta[0] = 0.0;
+                m_xi[0] = 1.0 / 3.0;
+                m_eta[0] = 1.0 / 3.0;
                 m_zeta[0] = 0.0;
-                m_wxi[0] = 2.0;
-                m_weta[0] = 2.0;
+                m_wxi[0] = 1.0;
+                m_weta[0] = 0.5;
                 m_wzeta[0] = 2.0;
                 break;
 
@@ -89,57 +89,57 @@ namespace ENigMA
                 m_xi[0] = 1.0 / 6.0;
                 m_eta[0] = 1.0 / 6.0;
                 m_zeta[0] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[0] = 5.0 / 18.0;
-                m_weta[0] = 5.0 / 18.0;
-                m_wzeta[0] = 5.0 / 18.0;
-                m_xi[1] = 1.0 / 3.0;
+                m_wxi[0] = 1.0 / 3.0;
+                m_weta[0] = 0.5;
+                m_wzeta[0] = 5.0 / 9.0;
+                m_xi[1] = 2.0 / 3.0;
                 m_eta[1] = 1.0 / 6.0;
                 m_zeta[1] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[1] = 5.0 / 18.0;
-                m_weta[1] = 5.0 / 18.0;
-                m_wzeta[1] = 5.0 / 18.0;
+                m_wxi[1] = 1.0 / 3.0;
+                m_weta[1] = 0.5;
+                m_wzeta[1] = 5.0 / 9.0;
                 m_xi[2] = 1.0 / 6.0;
-                m_eta[2] = 1.0 / 3.0;
+                m_eta[2] = 2.0 / 3.0;
                 m_zeta[2] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[2] = 5.0 / 18.0;
-                m_weta[2] = 5.0 / 18.0;
-                m_wzeta[2] = 5.0 / 18.0;
+                m_wxi[2] = 1.0 / 3.0;
+                m_weta[2] = 0.5;
+                m_wzeta[2] = 5.0 / 9.0;
                 m_xi[3] = 1.0 / 6.0;
                 m_eta[3] = 1.0 / 6.0;
                 m_zeta[3] = 0.0;
-                m_wxi[3] = 8.0 / 18.0;
-                m_weta[3] = 8.0 / 18.0;
-                m_wzeta[3] = 8.0 / 18.0;
-                m_xi[4] = 1.0 / 3.0;
+                m_wxi[3] = 1.0 / 3.0;
+                m_weta[3] = 0.5;
+                m_wzeta[3] = 8.0 / 9.0;
+                m_xi[4] = 2.0 / 3.0;
                 m_eta[4] = 1.0 / 6.0;
                 m_zeta[4] = 0.0;
-                m_wxi[4] = 8.0 / 18.0;
-                m_weta[4] = 8.0 / 18.0;
-                m_wzeta[4] = 8.0 / 18.0;
+                m_wxi[4] = 1.0 / 3.0;
+                m_weta[4] = 0.5;
+                m_wzeta[4] = 8.0 / 9.0;
                 m_xi[5] = 1.0 / 6.0;
-                m_eta[5] = 1.0 / 3.0;
+                m_eta[5] = 2.0 / 3.0;
                 m_zeta[5] = 0.0;
-                m_wxi[5] = 8.0 / 18.0;
-                m_weta[5] = 8.0 / 18.0;
-                m_wzeta[5] = 8.0 / 18.0;
+                m_wxi[5] = 1.0 / 3.0;
+                m_weta[5] = 0.5;
+                m_wzeta[5] = 8.0 / 9.0;
                 m_xi[6] = 1.0 / 6.0;
                 m_eta[6] = 1.0 / 6.0;
                 m_zeta[6] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[6] = 5.0 / 18.0;
-                m_weta[6] = 5.0 / 18.0;
-                m_wzeta[6] = 5.0 / 18.0;
-                m_xi[7] = 1.0 / 3.0;
+                m_wxi[6] = 1.0 / 3.0;
+                m_weta[6] = 0.5;
+                m_wzeta[6] = 5.0 / 9.0;
+                m_xi[7] = 2.0 / 3.0;
                 m_eta[7] = 1.0 / 6.0;
                 m_zeta[7] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[7] = 5.0 / 18.0;
-                m_weta[7] = 5.0 / 18.0;
-                m_wzeta[7] = 5.0 / 18.0;
+                m_wxi[7] = 1.0 / 3.0;
+                m_weta[7] = 0.5;
+                m_wzeta[7] = 5.0 / 9.0;
                 m_xi[8] = 1.0 / 6.0;
-                m_eta[8] = 1.0 / 3.0;
+                m_eta[8] = 2.0 / 3.0;
                 m_zeta[8] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[8] = 5.0 / 18.0;
-                m_weta[8] = 5.0 / 18.0;
-                m_wzeta[8] = 5.0 / 18.0;
+                m_wxi[8] = 1.0 / 3.0;
+                m_weta[8] = 0.5;
+                m_wzeta[8] = 5.0 / 9.0;
                 break;
             }
         }
-- 
2.43.0


From c750dc9bb9be73fe6afeaa36c04cdfb249992d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 036/120] fix: triangle mass matrix ignores the thickness

---
 trunk/src/fem/FemTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/FemTriangle_Imp.hpp b/trunk/src/fem/FemTriangle_Imp.hpp
index 1dcd83f..ab5ca1f 100644
--- a/trunk/src/fem/FemTriangle_Imp.hpp
+++ b/trunk/src/fem/FemTriangle_Imp.hpp
@@ -89,7 +89,7 @@ namespace ENigMA
                 1.0 / 12.0, 1.0 / 6.0, 1.0 / 12.0,
                 1.0 / 12.0, 1.0 / 12.0, 1.0 / 6.0;
 
-            this->ddt *= CGeoTriangle<Real>::area();
+            this->ddt *= CGeoTriangle<Real>::area() * this->m_thickness;
 
             if (this->m_dt > 0.0)
                 this->ddt /= this->m_dt;
-- 
2.43.0


From 5e01797fdd000586c15ca2afad1cb7c0b360ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 037/120] fix: elasticity matrix of the constant strain
 tetrahedron is not symmetric

---
 trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
index 88893fb..119c69a 100644
--- a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
@@ -47,7 +47,7 @@ namespace ENigMA
 
                 Real v = CFemStructuralElement<Real>::coeffPoisson();
 
-                D << 1.0 - v, v, 0.0, 0.0, 0.0, 0.0,
+                D << 1.0 - v, v, v, 0.0, 0.0, 0.0,
                     v, 1.0 - v, v, 0.0, 0.0, 0.0,
                     v, v, 1.0 - v, 0.0, 0.0, 0.0,
                     0.0, 0.0, 0.0, 0.5 - v, 0.0, 0.0,
-- 
2.43.0


From 53b0aad67cb19dcb5b1ac2370dffd99fd4b3d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 038/120] fix: source of the constant strain triangle has half
 its unknowns

---
 trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
index fcb6dde..c65c191 100644
--- a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
@@ -20,7 +20,7 @@ namespace ENigMA
             template <typename Real>
             CFemConstantStrainTriangle<Real, 3, 2, 1>::CFemConstantStrainTriangle()
             {
-                this->source.resize(3);
+                this->source.resize(6);
                 this->source.setZero();
 
                 this->m_thickness = 1.0;
-- 
2.43.0


From e9d5a6985217b8ad64f96f859c88099194fdc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 039/120] fix: convective term of the flow tetrahedron uses the
 wrong node's velocity

---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index b2a4cef..aa252ec 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 C << (us + u[0]) * bi + (vs + v[0]) * ci + (ws + w[0]) * di, (us + u[0]) * bj + (vs + v[0]) * cj + (ws + w[0]) * dj, (us + u[0]) * bk + (vs + v[0]) * ck + (ws + w[0]) * dk, (us + u[0]) * bl + (vs + v[0]) * cl + (ws + w[0]) * dl,
                     (us + u[1]) * bi + (vs + v[1]) * ci + (ws + w[1]) * di, (us + u[1]) * bj + (vs + v[1]) * cj + (ws + w[1]) * dj, (us + u[1]) * bk + (vs + v[1]) * ck + (ws + w[1]) * dk, (us + u[1]) * bl + (vs + v[1]) * cl + (ws + w[1]) * dl,
                     (us + u[2]) * bi + (vs + v[2]) * ci + (ws + w[2]) * di, (us + u[2]) * bj + (vs + v[2]) * cj + (ws + w[2]) * dj, (us + u[2]) * bk + (vs + v[2]) * ck + (ws + w[2]) * dk, (us + u[2]) * bl + (vs + v[2]) * cl + (ws + w[2]) * dl,
-                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[2]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
+                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[3]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
 
                 C *= 1.0 / 120.0;
 
-- 
2.43.0


From fb91e775358f65d450c3393461e66001ec67868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 040/120] fix: convection and radiation on edges and faces of
 thermal elements

---
 .../fem/thermal/FemLinearTemperatureBeam_Imp.hpp  | 15 ++++++++++-----
 .../FemLinearTemperatureHexahedron_Imp.hpp        |  2 +-
 .../FemLinearTemperatureQuadrilateral_Imp.hpp     |  2 +-
 .../FemLinearTemperatureTetrahedron_Imp.hpp       |  2 +-
 .../thermal/FemLinearTemperatureTriangle_Imp.hpp  |  2 +-
 .../FemLinearTemperatureTriangularPrism_Imp.hpp   |  2 +-
 6 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
index 2952b94..d807a23 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureBeam_Imp.hpp
@@ -30,17 +30,22 @@ namespace ENigMA
             template <typename Real>
             void CFemLinearTemperatureBeam<Real, 2, 1, 1>::setConvectionOnEdge(const Real h, const Real Tinf)
             {
-                CFemElement<Real>::source(0) += h * Tinf * this->m_perimeter * this->m_length;
-                CFemElement<Real>::source(1) += h * Tinf * this->m_perimeter * this->m_length;
+                CFemElement<Real>::source(0) += h * Tinf * this->m_perimeter * this->m_length * 0.5;
+                CFemElement<Real>::source(1) += h * Tinf * this->m_perimeter * this->m_length * 0.5;
 
-                CFemElement<Real>::laplacian(0, 0) += h * this->m_perimeter * this->m_length;
-                CFemElement<Real>::laplacian(1, 1) += h * this->m_perimeter * this->m_length;
+                CFemElement<Real>::laplacian(0, 0) += h * this->m_perimeter * this->m_length / 3.0;
+                CFemElement<Real>::laplacian(0, 1) += h * this->m_perimeter * this->m_length / 6.0;
+                CFemElement<Real>::laplacian(1, 0) += h * this->m_perimeter * this->m_length / 6.0;
+                CFemElement<Real>::laplacian(1, 1) += h * this->m_perimeter * this->m_length / 3.0;
             }
 
             template <typename Real>
             void CFemLinearTemperatureBeam<Real, 2, 1, 1>::setConvectionOnEdge(const Real e, const Real teta, const Real Tinf)
             {
-                this->setConvectionOnEdge(e, teta, Tinf);
+                // Stefan-boltzmann constant
+                Real sigma = 5.6704E-8;
+
+                this->setConvectionOnEdge(sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureHexahedron_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureHexahedron_Imp.hpp
index 0055cab..93cfc4b 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureHexahedron_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureHexahedron_Imp.hpp
@@ -39,7 +39,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnFace(aFaceIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnFace(aFaceIndex, sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
index b4ec329..8d136a6 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureQuadrilateral_Imp.hpp
@@ -56,7 +56,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureTetrahedron_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureTetrahedron_Imp.hpp
index e0a2c72..5d2e522 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureTetrahedron_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureTetrahedron_Imp.hpp
@@ -39,7 +39,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(aFaceIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnFace(aFaceIndex, sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
index d9a8228..d00d7d9 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureTriangle_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnEdge(anEdgeIndex, sigma * e * teta, Tinf);
             }
         }
     }
diff --git a/trunk/src/fem/thermal/FemLinearTemperatureTriangularPrism_Imp.hpp b/trunk/src/fem/thermal/FemLinearTemperatureTriangularPrism_Imp.hpp
index 27336f2..70cd6b8 100644
--- a/trunk/src/fem/thermal/FemLinearTemperatureTriangularPrism_Imp.hpp
+++ b/trunk/src/fem/thermal/FemLinearTemperatureTriangularPrism_Imp.hpp
@@ -39,7 +39,7 @@ namespace ENigMA
                 // Stefan-boltzmann constant
                 Real sigma = 5.6704E-8;
 
-                CFemThermalElement<Real>::setSourceOnEdge(aFaceIndex, sigma * e * teta, Tinf);
+                this->setConvectionOnFace(aFaceIndex, sigma * e * teta, Tinf);
             }
         }
     }
-- 
2.43.0


From b1f7cd38c32e141f9af5717905879df8ca81c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 041/120] fix: solve general systems directly when BiCGSTAB
 breaks down

---
 trunk/src/sle/SleSystem_Imp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 32e2d23..cfb001c 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -71,6 +71,16 @@ namespace ENigMA
                 solver.compute(matrixA);
                 x = solver.solve(vectorB);
 
+                // BiCGSTAB may break down (division by zero) even on well conditioned systems
+                if (!x.allFinite())
+                {
+                    Eigen::SparseLU<Eigen::SparseMatrix<Real, Eigen::ColMajor>, Eigen::COLAMDOrdering<Integer>> directSolver;
+
+                    directSolver.analyzePattern(matrixA);
+                    directSolver.factorize(matrixA);
+                    x = directSolver.solve(vectorB);
+                }
+
 #endif
             }
             else if (matrixType == MT_DENSE)
-- 
2.43.0


From a521ed67f9a41bf3983be45184865510506c14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 042/120] fix: row-scaled systems are not announced symmetric

---
 trunk/src/sle/SleSystem_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index cfb001c..2fba2ce 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -197,6 +197,10 @@ namespace ENigMA
 
             aSystem.matrixType = right.matrixType;
 
+            // Scaling the rows does not keep the symmetry
+            if (aSystem.matrixType == MT_SPARSE_SYMMETRIC)
+                aSystem.matrixType = MT_SPARSE;
+
             aSystem.matrixA = right.matrixA;
             for (int k = 0; k < aSystem.matrixA.outerSize(); ++k)
             {
-- 
2.43.0


From dc6aab7017f25990aa4510b66f046b2a4f319018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 043/120] fix: assemble time derivatives by element and node
 index

---
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp    |  8 +++++---
 .../pde/fem/generic/FemGenericOperators_Imp.hpp    | 14 ++++++++------
 .../pde/fem/thermal/FemThermalOperators_Imp.hpp    | 14 ++++++++------
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 5060b80..51eaa56 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -37,7 +37,9 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -67,7 +69,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -98,7 +100,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 070ac9e..26609ba 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -40,7 +40,9 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +70,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +99,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +128,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +157,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +186,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 4c2ee26..f0ee9a2 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -40,7 +40,9 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +70,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +99,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +128,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +157,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +186,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
-- 
2.43.0


From 00740b4a14a5297343d828454fa7d33e19b3db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 044/120] fix: include prisms in the time derivative and source

---
 .../fem/generic/FemGenericOperators_Imp.hpp   | 53 +++++++++++++++++++
 .../fem/thermal/FemThermalOperators_Imp.hpp   | 29 ++++++++++
 2 files changed, 82 insertions(+)

diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 26609ba..123456c 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -160,6 +160,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
@@ -615,6 +644,30 @@ namespace ENigMA
                                 aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(false);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                                aTriangularPrism.setSourceOnNode(i, aSource);
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index f0ee9a2..50ed198 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -160,6 +160,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemLinearTemperatureTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemLinearTemperatureHexahedron<Real, 8, 1, 1> aHexahedron;
-- 
2.43.0


From b112b537cb12900b3dc06928d1618350e2238be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 045/120] fix: sign of the boundary flux in the finite volume
 divergence

---
 trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp       | 2 +-
 trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp | 2 +-
 trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
index c52c828..5415076 100644
--- a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
@@ -207,7 +207,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index caa7534..97ec7d3 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -215,7 +215,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index e348b10..97e200c 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -211,7 +211,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
-- 
2.43.0


From f6e20100d97fa229f2df99c1e4cf9d7136cf62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 046/120] fix: look boundary elements up by identifier

---
 trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
index 97da2ec..e1eacf5 100644
--- a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
@@ -51,7 +51,7 @@ namespace ENigMA
 
                     for (Integer eli = 0; eli < aField.mesh().nbElements(); ++eli)
                     {
-                        CMshElement<Real>& anElementi = aField.mesh().element(eli);
+                        CMshElement<Real>& anElementi = aField.mesh().element(aField.mesh().elementId(eli));
 
                         if (anElementi.elementType() != ET_TRIANGLE)
                             continue;
@@ -66,7 +66,7 @@ namespace ENigMA
 
                         for (Integer elj = 0; elj < aField.mesh().nbElements(); ++elj)
                         {
-                            CMshElement<Real>& anElementj = aField.mesh().element(elj);
+                            CMshElement<Real>& anElementj = aField.mesh().element(aField.mesh().elementId(elj));
 
                             if (anElementj.elementType() != ET_TRIANGLE)
                                 continue;
-- 
2.43.0


From 44f0924708af9a2e4de5c3eb625502578cf575e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 047/120] fix: clipping a finite volume cell invalidates its
 cached volume, area and centroid

---
 trunk/src/fvm/FvmControlVolume_Imp.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/trunk/src/fvm/FvmControlVolume_Imp.hpp b/trunk/src/fvm/FvmControlVolume_Imp.hpp
index 0fab31e..84bc09a 100644
--- a/trunk/src/fvm/FvmControlVolume_Imp.hpp
+++ b/trunk/src/fvm/FvmControlVolume_Imp.hpp
@@ -81,6 +81,8 @@ namespace ENigMA
 
             m_polyhedron.addPolygon(aFaceId, aPolygon);
 
+            CGeoVolume<Real>::reset();
+
         }
 
         template <typename Real>
@@ -221,6 +223,8 @@ namespace ENigMA
             m_clippedFace.set(aPolygon);
             m_clipped = true;
 
+            CGeoVolume<Real>::reset();
+
         }
 
         template <typename Real>
@@ -232,12 +236,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateSurfaceArea();
+                    m_clippedPolyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_clippedPolyhedron.surfaceArea();
                 }
                 else
                 {
-                    m_polyhedron.calculateSurfaceArea();
+                    m_polyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_polyhedron.surfaceArea();
                 }
 
@@ -256,12 +260,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateCentroid();
+                    m_clippedPolyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_clippedPolyhedron.centroid();
                 }
                 else
                 {
-                    m_polyhedron.calculateCentroid();
+                    m_polyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_polyhedron.centroid();
                 }
 
@@ -344,6 +348,8 @@ namespace ENigMA
 
             m_clipped = clipped;
 
+            CGeoVolume<Real>::reset();
+
         }
 
     }
-- 
2.43.0


From b34aa96cc8f6087c27c5f396722999f9b00c7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 048/120] fix: removing a finite volume face keeps the face
 indices in step

---
 trunk/src/fvm/FvmMesh_Imp.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trunk/src/fvm/FvmMesh_Imp.hpp b/trunk/src/fvm/FvmMesh_Imp.hpp
index 0243f84..5de0d17 100644
--- a/trunk/src/fvm/FvmMesh_Imp.hpp
+++ b/trunk/src/fvm/FvmMesh_Imp.hpp
@@ -205,6 +205,13 @@ namespace ENigMA
 
             if (it != m_faceIds.end())
                 m_faceIds.erase(it);
+
+            m_faceIndices.clear();
+
+            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)
+                m_faceIndices[m_faceIds[i]] = i;
+
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
         }
 
         template <typename Real>
-- 
2.43.0


From 8f19e82fb733feae8947e3789733c7f988405048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 049/120] fix: rebuilding the finite volume mesh search does
 not list faces twice

---
 trunk/src/fvm/FvmMeshSearch_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/fvm/FvmMeshSearch_Imp.hpp b/trunk/src/fvm/FvmMeshSearch_Imp.hpp
index db960c4..a0f60de 100644
--- a/trunk/src/fvm/FvmMeshSearch_Imp.hpp
+++ b/trunk/src/fvm/FvmMeshSearch_Imp.hpp
@@ -45,6 +45,8 @@ namespace ENigMA
         template <typename Real>
         void CFvmMeshSearch<Real>::build()
         {
+            m_boundaryFaceHashGrid.reset();
+
             for (Integer i = 0; i < m_mesh->nbFaces(); ++i)
             {
                 m_mesh->face(m_mesh->faceId(i)).calculateCentroid();
-- 
2.43.0


From 9c2c06880791c21e2090afe9b1ebff63a4af55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 050/120] fix: PISO builds the momentum operator H from the
 neighbouring velocities

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index c50501b..27e45bd 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -332,7 +332,7 @@ namespace ENigMA
             Eigen::Matrix<Real, Eigen::Dynamic, 1> v = solver.solve(bv);
             Eigen::Matrix<Real, Eigen::Dynamic, 1> w = solver.solve(bw);
 
-            for (int k = 0; k < A.outerSize(); ++k)
+            for (int k = 0; k < A.rows(); ++k)
             {
 
                 Integer aControlVolumeId = m_mapIndexToId.at(k);
@@ -342,10 +342,16 @@ namespace ENigMA
                 m_Hu[aControlVolumeId] = bu[k] - gradp.x();
                 m_Hv[aControlVolumeId] = bv[k] - gradp.y();
                 m_Hw[aControlVolumeId] = bw[k] - gradp.z();
+            }
+
+            for (int k = 0; k < A.outerSize(); ++k)
+            {
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
 
+                    Integer aControlVolumeId = m_mapIndexToId.at(it.row());
+
                     if (it.row() == it.col())
                         m_ap[aControlVolumeId] = it.value();
                     else
-- 
2.43.0


From 1da51f478e31b8c761989233e426cbdc795d210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 051/120] fix: PISO momentum predictor applies the pressure
 gradient with the right sign

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 27e45bd..c1ea204 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -308,9 +308,9 @@ namespace ENigMA
                 // Source - pressure
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                bu[anIndexP] += gradp.x();
-                bv[anIndexP] += gradp.y();
-                bw[anIndexP] += gradp.z();
+                bu[anIndexP] -= gradp.x();
+                bv[anIndexP] -= gradp.y();
+                bw[anIndexP] -= gradp.z();
 
                 if (m_dt > 0.0)
                 {
@@ -339,9 +339,9 @@ namespace ENigMA
 
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                m_Hu[aControlVolumeId] = bu[k] - gradp.x();
-                m_Hv[aControlVolumeId] = bv[k] - gradp.y();
-                m_Hw[aControlVolumeId] = bw[k] - gradp.z();
+                m_Hu[aControlVolumeId] = bu[k] + gradp.x();
+                m_Hv[aControlVolumeId] = bv[k] + gradp.y();
+                m_Hw[aControlVolumeId] = bw[k] + gradp.z();
             }
 
             for (int k = 0; k < A.outerSize(); ++k)
-- 
2.43.0


From bd7a374ed1eab867bd4351e7847131e9c42a3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 052/120] fix: PISO boundary fluxes follow the outward sign of
 the interior fluxes

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index c1ea204..b0f2f58 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -294,9 +294,9 @@ namespace ENigMA
                         bw[anIndexP] += visc * m_wf[aFaceId] * area / dist / volume;
 
                         // Convection
-                        bu[anIndexP] += -dens * m_uf[aFaceId] * area * flux * aNormal.x() / volume;
-                        bv[anIndexP] += -dens * m_vf[aFaceId] * area * flux * aNormal.y() / volume;
-                        bw[anIndexP] += -dens * m_wf[aFaceId] * area * flux * aNormal.z() / volume;
+                        bu[anIndexP] += -dens * m_uf[aFaceId] * flux / volume;
+                        bv[anIndexP] += -dens * m_vf[aFaceId] * flux / volume;
+                        bw[anIndexP] += -dens * m_wf[aFaceId] * flux / volume;
                     }
                 }
 
@@ -451,9 +451,9 @@ namespace ENigMA
 
                             // specified flux
                             // pressure gradient = 0
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            m_flux[aFaceId] = +(m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
 
-                            m_flux[aFaceId] = -(m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
@@ -464,13 +464,13 @@ namespace ENigMA
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = +Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = +m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = +m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = +m_flux[aFaceId] / area * aNormal.z();
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
@@ -480,13 +480,13 @@ namespace ENigMA
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = +Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = +m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = +m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = +m_flux[aFaceId] / area * aNormal.z();
                         }
                     }
                 }
@@ -563,7 +563,7 @@ namespace ENigMA
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
 
-                            m_flux[aFaceId] += area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
+                            m_flux[aFaceId] -= area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
-- 
2.43.0


From 13a6a9b53450ece25e6cea7ca77f0b5f2ecc0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 053/120] fix: PISO keeps the pressure level a boundary
 specifies

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index b0f2f58..703e968 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -597,6 +597,16 @@ namespace ENigMA
         void CFvmPisoSolver<Real>::correctPressureField()
         {
 
+            // The pressure level is free only when no boundary specifies it
+            for (Integer i = 0; i < m_fvmMesh.nbFaces(); ++i)
+            {
+
+                CFvmFace<Real>& aFace = m_fvmMesh.face(m_fvmMesh.faceId(i));
+
+                if (!aFace.hasPair() && (aFace.boundaryType() == BT_INLET_PRESSURE || aFace.boundaryType() == BT_OUTLET))
+                    return;
+            }
+
             Real p_min = std::numeric_limits<Real>::max();
 
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
-- 
2.43.0


From ff91159cf60956691f22bd260889960b4c3513a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 054/120] fix: temperature solver boundary heat flux is not
 divided by the cell volume

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 807ec14..38f91c5 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -156,7 +156,7 @@ namespace ENigMA
 
                         // Conduction
                         A.coeffRef(anIndexP, anIndexP) += thcond * area / dist;
-                        b[anIndexP] += thcond * area / dist / volume * m_Tf.at(aFaceId);
+                        b[anIndexP] += thcond * area / dist * m_Tf.at(aFaceId);
 
                         // Convection
                         Real xsi;
-- 
2.43.0


From 67ca7a3e687bb8c7b6e4c8ee437dc2bc81b629e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 055/120] fix: temperature solver does not carry averaged
 properties from face to face

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 38f91c5..ba93818 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -96,15 +96,14 @@ namespace ENigMA
 
                 Integer anIndexP = CFvmPisoSolver<Real>::m_mapIdToIndex.at(aControlVolumeId);
 
-                Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
-                Real visc = CFvmPisoSolver<Real>::m_visc.at(aControlVolumeId);
-                Real thcond = m_thcond.at(aControlVolumeId);
-                Real spheat = m_spheat.at(aControlVolumeId);
-
                 for (Integer j = 0; j < CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).nbFaces(); ++j)
                 {
                     Integer aFaceId = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceId(j);
 
+                    Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+                    Real thcond = m_thcond.at(aControlVolumeId);
+                    Real spheat = m_spheat.at(aControlVolumeId);
+
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -173,6 +172,9 @@ namespace ENigMA
                 if (CFvmPisoSolver<Real>::m_dt > 0)
                 {
                     // Unsteady term - Euler
+                    Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+                    Real spheat = m_spheat.at(aControlVolumeId);
+
                     A.coeffRef(anIndexP, anIndexP) += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt;
                     b[anIndexP] += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt * m_T0.at(aControlVolumeId);
                 }
-- 
2.43.0


From cd160f8dd38740e3af31d3959c343cb48f774461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 056/120] fix: VOF Courant number uses the volumetric face flux

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 8f3ba72..8efaa3f 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -121,7 +121,7 @@ namespace ENigMA
 
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
 
-                    Real Cj = std::max(-flux * area * dt / volume, 0.0);
+                    Real Cj = std::max(-flux * dt / volume, 0.0);
                     Cpp += cs * Cj;
                 }
 
@@ -283,7 +283,7 @@ namespace ENigMA
                             aDonor = aNeighborId;
                         }
 
-                        Real Cj = std::min(std::max(-flux * area * dt / volume, 0.0), 1.0);
+                        Real Cj = std::min(std::max(-flux * dt / volume, 0.0), 1.0);
 
                         Real ds = 0.5 * (m_s0[anAcceptor] + m_s[anAcceptor]) - 0.5 * (m_s0[aDonor] + m_s[aDonor]);
 
-- 
2.43.0


From a58be3a9e3ac35f4fea62c00bfdaa571a15da8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 057/120] fix: PISO pressure solver stops before it drifts on
 closed domains

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 703e968..f802610 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -495,6 +495,9 @@ namespace ENigMA
             A.finalize();
 
             Eigen::ConjugateGradient<Eigen::SparseMatrix<Real>> solver;
+
+            // In a closed domain A is singular: iterating below rounding error would drift
+            solver.setTolerance(static_cast<Real>(1E-12));
             solver.compute(A);
 
             Eigen::Matrix<Real, Eigen::Dynamic, 1> p = solver.solve(b);
-- 
2.43.0


From de957e1b7cc617960e8ee0f516827b491bb249be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 058/120] fix: VOF donor and acceptor cells follow the flow
 direction

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 8efaa3f..cc1e008 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -121,7 +121,7 @@ namespace ENigMA
 
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
 
-                    Real Cj = std::max(-flux * dt / volume, 0.0);
+                    Real Cj = std::max(flux * dt / volume, 0.0);
                     Cpp += cs * Cj;
                 }
 
@@ -143,7 +143,7 @@ namespace ENigMA
 
             for (Integer i = 0; i < CFvmPisoSolver<Real>::m_fvmMesh.nbFaces(); ++i)
             {
-                Real betaj = 1.0;
+                Real betaj = 0.0;
 
                 Integer aFaceId = CFvmPisoSolver<Real>::m_fvmMesh.faceId(i);
 
@@ -155,6 +155,7 @@ namespace ENigMA
 
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
+                    dist += CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aNeighborId).faceDist(aFaceId).norm();
 
                     Real flux;
 
@@ -163,7 +164,7 @@ namespace ENigMA
                     else
                         flux = -CFvmPisoSolver<Real>::m_flux.at(aFaceId);
 
-                    if (flux < 0.0)
+                    if (flux > 0.0)
                     {
                         anAcceptor = aNeighborId;
                         aDonor = aControlVolumeId;
@@ -182,7 +183,7 @@ namespace ENigMA
 
                         grads = this->gradient(m_s, m_sf, aDonor);
 
-                        dot = grads.dot(CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).normal()) * dist;
+                        dot = -grads.dot(CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).normal()) * dist;
 
                         l1 = grads.norm();
                         l2 = dist;
@@ -248,8 +249,6 @@ namespace ENigMA
 
                 Integer aControlVolumeId = CFvmPisoSolver<Real>::m_fvmMesh.face(aFaceId).controlVolumeId();
 
-                Real volume = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).originalVolume();
-
                 Real betaj = m_betaf.at(aFaceId);
 
                 if (betaj < 1E-2)
@@ -272,7 +271,7 @@ namespace ENigMA
 
                     if (flux != 0.0)
                     {
-                        if (flux < 0.0)
+                        if (flux > 0.0)
                         {
                             anAcceptor = aNeighborId;
                             aDonor = aControlVolumeId;
@@ -283,7 +282,9 @@ namespace ENigMA
                             aDonor = aNeighborId;
                         }
 
-                        Real Cj = std::min(std::max(-flux * dt / volume, 0.0), 1.0);
+                        Real volume = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aDonor).originalVolume();
+
+                        Real Cj = std::min(std::fabs(flux) * dt / volume, 1.0);
 
                         Real ds = 0.5 * (m_s0[anAcceptor] + m_s[anAcceptor]) - 0.5 * (m_s0[aDonor] + m_s[aDonor]);
 
@@ -386,7 +387,7 @@ namespace ENigMA
                         {
                             Real beta = 0.0;
 
-                            if (flux < 0.0)
+                            if (flux > 0.0)
                                 beta = m_betaf.at(aFaceId);
                             else
                                 beta = 1.0 - m_betaf.at(aFaceId);
-- 
2.43.0


From e49e8b851cb0d19dbb77b48a9b317066afa58380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 059/120] fix: VOF corrects overshoots of the whole step before
 clamping

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index cc1e008..4675353 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -426,7 +426,7 @@ namespace ENigMA
             {
                 Integer aControlVolumeId = CFvmPisoSolver<Real>::m_mapIndexToId.at(i);
 
-                m_s[aControlVolumeId] = std::min(std::max(s[i], 0.0), 1.0);
+                m_s[aControlVolumeId] = s[i];
             }
         }
 
@@ -453,13 +453,16 @@ namespace ENigMA
 
                 for (Integer l = 0; l < m; ++l)
                 {
-                    this->calculateCourant(dt / m, false);
+                    this->calculateCourant(dt, false);
 
                     this->calculateGammaField();
 
-                    this->correctBeta(dt / m, 1E-16);
+                    this->correctBeta(dt, 1E-16);
                 }
             }
+
+            for (typename varMap::iterator itr = m_s.begin(); itr != m_s.end(); ++itr)
+                itr->second = std::min(std::max(itr->second, static_cast<Real>(0)), static_cast<Real>(1));
         }
 
         template <typename Real>
-- 
2.43.0


From 08af057b89a3dac8e11498024a565edab57120e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 060/120] fix: VOF transport equation is solved with an
 incomplete LU preconditioner

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index 4675353..cc59e61 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -417,7 +417,7 @@ namespace ENigMA
 
             A.finalize();
 
-            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>> solver;
+            Eigen::BiCGSTAB<Eigen::SparseMatrix<Real>, Eigen::IncompleteLUT<Real>> solver;
             solver.compute(A);
 
             Eigen::Matrix<Real, Eigen::Dynamic, 1> s = solver.solve(b);
-- 
2.43.0


From d6a0150b57bc3da68f3bb6066aeefc88e0b069b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 061/120] fix: VOF weights are predicted from the full Courant
 number

---
 trunk/src/solvers/FvmVofSolver_Imp.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trunk/src/solvers/FvmVofSolver_Imp.hpp b/trunk/src/solvers/FvmVofSolver_Imp.hpp
index cc59e61..797d09a 100644
--- a/trunk/src/solvers/FvmVofSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmVofSolver_Imp.hpp
@@ -444,7 +444,7 @@ namespace ENigMA
             for (Integer j = 0; j < n; ++j)
             {
                 // Currant number
-                //maxCp = this->calculateCourant(dt / n, false);
+                this->calculateCourant(dt, false);
 
                 this->predictBeta(1E-16);
 
@@ -453,8 +453,6 @@ namespace ENigMA
 
                 for (Integer l = 0; l < m; ++l)
                 {
-                    this->calculateCourant(dt, false);
-
                     this->calculateGammaField();
 
                     this->correctBeta(dt, 1E-16);
-- 
2.43.0


From 02e3bd977e41bb6be7f083fdd78cd77d56a43837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 062/120] fix: CBS body force is integrated over the elements

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 65b6225..5bbdbb3 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -80,11 +80,14 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = m_gx);
+            // Body forces are integrated over the elements like every other term
+            Eigen::SparseMatrix<Real> aMassMatrix = ddt<Real>(m_u).matrixA;
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = m_gy);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
         }
@@ -215,15 +218,18 @@ namespace ENigMA
         {
             Real nu = m_visc / m_dens;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gx / m_dens);
+            // Body forces are integrated over the elements like every other term
+            Eigen::SparseMatrix<Real> aMassMatrix = ddt<Real>(m_u).matrixA;
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gy / m_dens);
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
 
-            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = m_gz / m_dens);
+            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_w.u.size(), m_gz));
             aPdeEquationW.setElimination(m_w);
             aPdeEquationW.solve(m_w);
         }
-- 
2.43.0


From 6df243af896bcef7081d096c8d9ec7d8d774c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 063/120] fix: CBS pressure equation uses the density

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 5bbdbb3..e898e6b 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -96,7 +96,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 2>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
@@ -238,7 +238,7 @@ namespace ENigMA
         void CFemCbsSolver<Real, 3>::calculatePressureField()
         {
             // Pressure calculation
-            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = 1.0 / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
+            CPdeEquation<Real> aPdeEquationP(laplacian<Real>(m_p) = m_dens / m_dt * (m_G1 * m_u.u + m_G2 * m_v.u + m_G3 * m_w.u));
             aPdeEquationP.setElimination(m_p);
             aPdeEquationP.solve(m_p);
         }
-- 
2.43.0


From 2d530c603dda9466a7b0a12ede987abebb459a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 064/120] fix: three-dimensional CBS solver can be constructed

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index e898e6b..73e53d2 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -146,7 +146,6 @@ namespace ENigMA
         // Three-dimensional
         template <typename Real>
         CFemCbsSolver<Real, 3>::CFemCbsSolver(CMshMesh<Real>& aMesh)
-            : CFemCbsSolver<Real, 2>(aMesh)
         {
             m_mesh = aMesh;
 
-- 
2.43.0


From c3869b91b5762ed2cd05b04fe9c1beb10f76ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 065/120] fix: CBS solver starts from a fluid at rest without
 gravity

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index 73e53d2..a821bd4 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -19,6 +19,11 @@ namespace ENigMA
     {
         template <typename Real>
         CFemCbsSolver<Real, 2>::CFemCbsSolver(CMshMesh<Real>& aMesh)
+            : m_dt(0)
+            , m_dens(0)
+            , m_visc(0)
+            , m_gx(0)
+            , m_gy(0)
         {
             m_mesh = aMesh;
 
@@ -28,7 +33,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -36,7 +41,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -44,7 +49,7 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
@@ -146,6 +151,12 @@ namespace ENigMA
         // Three-dimensional
         template <typename Real>
         CFemCbsSolver<Real, 3>::CFemCbsSolver(CMshMesh<Real>& aMesh)
+            : m_dt(0)
+            , m_dens(0)
+            , m_visc(0)
+            , m_gx(0)
+            , m_gy(0)
+            , m_gz(0)
         {
             m_mesh = aMesh;
 
@@ -155,7 +166,7 @@ namespace ENigMA
             m_u.setDiscretLocation(DL_NODE);
             m_u.setSimulationType(ST_FLOW);
             m_u.setNbDofs(1);
-            m_u.u.resize(aMesh.nbNodes());
+            m_u.u.setZero(aMesh.nbNodes());
 
             m_v.setMesh(aMesh);
             m_v.setDiscretMethod(DM_FEM);
@@ -163,7 +174,7 @@ namespace ENigMA
             m_v.setDiscretLocation(DL_NODE);
             m_v.setSimulationType(ST_FLOW);
             m_v.setNbDofs(1);
-            m_v.u.resize(aMesh.nbNodes());
+            m_v.u.setZero(aMesh.nbNodes());
 
             m_w.setMesh(aMesh);
             m_w.setDiscretMethod(DM_FEM);
@@ -171,7 +182,7 @@ namespace ENigMA
             m_w.setDiscretLocation(DL_NODE);
             m_w.setSimulationType(ST_FLOW);
             m_w.setNbDofs(1);
-            m_w.u.resize(aMesh.nbNodes());
+            m_w.u.setZero(aMesh.nbNodes());
 
             m_p.setMesh(aMesh);
             m_p.setDiscretMethod(DM_FEM);
@@ -179,7 +190,7 @@ namespace ENigMA
             m_p.setDiscretLocation(DL_NODE);
             m_p.setSimulationType(ST_FLOW);
             m_p.setNbDofs(1);
-            m_p.u.resize(aMesh.nbNodes());
+            m_p.u.setZero(aMesh.nbNodes());
 
             m_G1 = gradient<Real>(m_u, CP_X).matrixA;
             m_G2 = gradient<Real>(m_v, CP_Y).matrixA;
-- 
2.43.0


From c026b68dc91107a41de451836305774b7055f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 066/120] fix: CBS convects all velocity components with the
 same velocity

---
 trunk/src/solvers/FemCbsSolver_Imp.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/FemCbsSolver_Imp.hpp b/trunk/src/solvers/FemCbsSolver_Imp.hpp
index a821bd4..7dd8941 100644
--- a/trunk/src/solvers/FemCbsSolver_Imp.hpp
+++ b/trunk/src/solvers/FemCbsSolver_Imp.hpp
@@ -88,11 +88,14 @@ namespace ENigMA
             // Body forces are integrated over the elements like every other term
             Eigen::SparseMatrix<Real> aMassMatrix = ddt<Real>(m_u).matrixA;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
+            // All components are convected by the velocity of the previous step
+            CSleSystem<Real> aConvection = divergence<Real>(m_u, m_v, m_dt);
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + aConvection = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + aConvection = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
         }
@@ -231,15 +234,18 @@ namespace ENigMA
             // Body forces are integrated over the elements like every other term
             Eigen::SparseMatrix<Real> aMassMatrix = ddt<Real>(m_u).matrixA;
 
-            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
+            // All components are convected by the velocity of the previous step
+            CSleSystem<Real> aConvection = divergence<Real>(m_u, m_v, m_w, m_dt);
+
+            CPdeEquation<Real> aPdeEquationU(1.0 / m_dt * ddt<Real>(m_u) - nu * laplacian<Real>(m_u) + aConvection = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_u.u.size(), m_gx));
             aPdeEquationU.setElimination(m_u);
             aPdeEquationU.solve(m_u);
 
-            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
+            CPdeEquation<Real> aPdeEquationV(1.0 / m_dt * ddt<Real>(m_v) - nu * laplacian<Real>(m_v) + aConvection = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_v.u.size(), m_gy));
             aPdeEquationV.setElimination(m_v);
             aPdeEquationV.solve(m_v);
 
-            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + divergence<Real>(m_u, m_v, m_w, m_dt) = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_w.u.size(), m_gz));
+            CPdeEquation<Real> aPdeEquationW(1.0 / m_dt * ddt<Real>(m_w) - nu * laplacian<Real>(m_w) + aConvection = aMassMatrix * Eigen::Matrix<Real, Eigen::Dynamic, 1>::Constant(m_w.u.size(), m_gz));
             aPdeEquationW.setElimination(m_w);
             aPdeEquationW.solve(m_w);
         }
-- 
2.43.0


From ec1ee57f5e0cb803f296c5d3aaf087b887f62c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 067/120] fix: LBM walls on the border of the grid bounce the
 flow back

---
 trunk/src/solvers/LbmLidDrivenSolver_Imp.hpp | 26 ++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/trunk/src/solvers/LbmLidDrivenSolver_Imp.hpp b/trunk/src/solvers/LbmLidDrivenSolver_Imp.hpp
index 1c9cb34..553210e 100644
--- a/trunk/src/solvers/LbmLidDrivenSolver_Imp.hpp
+++ b/trunk/src/solvers/LbmLidDrivenSolver_Imp.hpp
@@ -134,15 +134,25 @@ namespace ENigMA
         void CLbmLidDrivenSolver<Real, 2, 9>::evolve(Real tau_f)
         {
             // Evolution: streaming and collision
-            for (Integer i = 1; i < m_nx; ++i)
+            for (Integer i = 0; i <= m_nx; ++i)
             {
-                for (Integer j = 1; j < m_ny; ++j)
+                for (Integer j = 0; j <= m_ny; ++j)
                 {
+                    // Walls on the border of the grid receive what flows into them, in order to send it back
+                    if (m_B[i][j] != 1 && (i == 0 || i == m_nx || j == 0 || j == m_ny))
+                        continue;
+
                     for (Integer k = 0; k < 9; ++k)
                     {
                         int ip = i - m_e[k][0];
                         int jp = j - m_e[k][1];
-                        m_F[i][j][k] = m_f[ip][jp][k] + (this->feq2(k, m_rho[ip][jp], m_u[ip][jp]) - m_f[ip][jp][k]) / tau_f;
+
+                        if (ip < 0 || ip > m_nx || jp < 0 || jp > m_ny)
+                            m_F[i][j][k] = 0;
+                        else if (m_B[ip][jp] == 1)
+                            m_F[i][j][k] = m_f[ip][jp][k];
+                        else
+                            m_F[i][j][k] = m_f[ip][jp][k] + (this->feq2(k, m_rho[ip][jp], m_u[ip][jp]) - m_f[ip][jp][k]) / tau_f;
                     }
                 }
             }
@@ -160,7 +170,7 @@ namespace ENigMA
                             Ft[k] = m_F[i][j][k];
 
                         for (Integer k = 0; k < 9; ++k)
-                            m_F[i][j][k] = Ft[m_op[k]];
+                            m_f[i][j][k] = m_F[i][j][k] = Ft[m_op[k]];
                     }
                 }
             }
@@ -192,10 +202,16 @@ namespace ENigMA
 
             for (Integer i = 0; i <= m_nx; ++i) // Upper boundary
             {
+                if (m_B[i][m_ny] == 1)
+                    continue;
+
                 for (Integer k = 0; k < 9; ++k)
                 {
                     m_rho[i][m_ny] = m_rho[i][m_ny - 1];
-                    m_f[i][m_ny][k] = this->feq2(k, m_rho[i][m_ny], m_u[i][m_ny]) + m_f[i][m_ny - 1][k] - this->feq2(k, m_rho[i][m_ny - 1], m_u[i][m_ny - 1]);
+                    m_f[i][m_ny][k] = this->feq2(k, m_rho[i][m_ny], m_u[i][m_ny]);
+
+                    if (m_B[i][m_ny - 1] != 1)
+                        m_f[i][m_ny][k] += m_f[i][m_ny - 1][k] - this->feq2(k, m_rho[i][m_ny - 1], m_u[i][m_ny - 1]);
                 }
             }
         }
-- 
2.43.0


From 518f372271ce72c1b08c2361b10e96273d26bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 068/120] fix: SPH kernels integrate to one in every dimension

---
 trunk/src/sph/SphConvex_Imp.hpp      | 6 +++---
 trunk/src/sph/SphCubicSpline_Imp.hpp | 4 ++--
 trunk/src/sph/SphGaussian_Imp.hpp    | 6 +++---
 trunk/src/sph/SphQuintic_Imp.hpp     | 6 +++---
 trunk/src/sph/SphSpiky_Imp.hpp       | 6 +++---
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 90267ff..3d182a0 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index ca4780f..3e746e1 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -56,9 +56,9 @@ namespace ENigMA
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
             if (q >= 0 && q < 1.0)
-                return CSphKernel<Real>::m_C * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
+                return CSphKernel<Real>::m_C * 0.25 * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
             else
-                return CSphKernel<Real>::m_C * (2 - q) * (2 - q) * (2 - q);
+                return CSphKernel<Real>::m_C * 0.25 * (2 - q) * (2 - q) * (2 - q);
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphGaussian_Imp.hpp b/trunk/src/sph/SphGaussian_Imp.hpp
index 4f0d1b3..0dbbaee 100644
--- a/trunk/src/sph/SphGaussian_Imp.hpp
+++ b/trunk/src/sph/SphGaussian_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * exp(-q * q);
         }
@@ -74,7 +74,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * 2 * exp(-q * q) * r;
         }
@@ -92,7 +92,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             Real w = exp(-q * q);
             Real dw = -2.0 * q * w;
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 7fd6c46..39986c4 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 68d2f09..013ab9f 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -75,7 +75,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -94,7 +94,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-- 
2.43.0


From 33aacf21a083c9eb8fe3b70dbe8bc114de2436dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 069/120] fix: gradient of the convex SPH kernel

---
 trunk/src/sph/SphConvex_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 3d182a0..a4f5309 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (128.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
         }
 
         template <typename Real>
-- 
2.43.0


From 1986e6bca4839a533e75c267929fee8f307fa79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 070/120] fix: SPH kernel gradients scale with the smoothing
 length

---
 trunk/src/sph/SphConvex_Imp.hpp      | 2 +-
 trunk/src/sph/SphCubicSpline_Imp.hpp | 4 ++--
 trunk/src/sph/SphGaussian_Imp.hpp    | 2 +-
 trunk/src/sph/SphQuintic_Imp.hpp     | 2 +-
 trunk/src/sph/SphSpiky_Imp.hpp       | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index a4f5309..8ee3691 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (128.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / (q * h * h) * r;
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index 3e746e1..6c163df 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -80,9 +80,9 @@ namespace ENigMA
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
             if (q >= aTolerance && q < 1.0)
-                return CSphKernel<Real>::m_C * (3.0 * q * (1 - 0.75 * q)) / q * r;
+                return CSphKernel<Real>::m_C * (3.0 * q * (1 - 0.75 * q)) / (q * h * h) * r;
             else
-                return CSphKernel<Real>::m_C * 0.75 * (2 - q) * (2 - q) / q * r;
+                return CSphKernel<Real>::m_C * 0.75 * (2 - q) * (2 - q) / (q * h * h) * r;
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphGaussian_Imp.hpp b/trunk/src/sph/SphGaussian_Imp.hpp
index 0dbbaee..01c8c49 100644
--- a/trunk/src/sph/SphGaussian_Imp.hpp
+++ b/trunk/src/sph/SphGaussian_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
-            return CSphKernel<Real>::m_C * 2 * exp(-q * q) * r;
+            return CSphKernel<Real>::m_C * 2 * exp(-q * q) / (h * h) * r;
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 39986c4..7d3e2d1 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -76,7 +76,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (16.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (2 * pow(1 - 0.5 * q, 4) - 2 * pow(1 - 0.5 * q, 3) * (2 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (2 * pow(1 - 0.5 * q, 4) - 2 * pow(1 - 0.5 * q, 3) * (2 * q + 1)) / (q * h * h) * r;
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 013ab9f..848fe46 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -81,7 +81,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 15.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
-            return CSphKernel<Real>::m_C * 3 * pow(1 - q, 2) / q * r;
+            return CSphKernel<Real>::m_C * 3 * pow(1 - q, 2) / (q * h * h) * r;
         }
 
         template <typename Real>
-- 
2.43.0


From d83f71b8a3e9c1eeacfe068a09edaa91e81f62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 071/120] fix: SPH kernel gradient vanishes at the centre

---
 trunk/src/sph/SphConvex_Imp.hpp      | 3 +++
 trunk/src/sph/SphCubicSpline_Imp.hpp | 3 +++
 trunk/src/sph/SphQuintic_Imp.hpp     | 3 +++
 trunk/src/sph/SphSpiky_Imp.hpp       | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 8ee3691..be877f6 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -66,6 +66,9 @@ namespace ENigMA
             if (q < aTolerance)
                 q = aTolerance;
 
+            if (q == 0)
+                return CGeoVector<Real>(0, 0, 0);
+
             if (q > 2.0)
                 return CGeoVector<Real>(0, 0, 0);
 
diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index 6c163df..8ca6e6b 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -69,6 +69,9 @@ namespace ENigMA
             if (q < aTolerance)
                 q = aTolerance;
 
+            if (q == 0)
+                return CGeoVector<Real>(0, 0, 0);
+
             if (q > 2.0)
                 return CGeoVector<Real>(0, 0, 0);
 
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 7d3e2d1..39cb8b6 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -66,6 +66,9 @@ namespace ENigMA
             if (q < aTolerance)
                 q = aTolerance;
 
+            if (q == 0)
+                return CGeoVector<Real>(0, 0, 0);
+
             if (q > 2.0)
                 return CGeoVector<Real>(0, 0, 0);
 
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 848fe46..aa9d958 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -71,6 +71,9 @@ namespace ENigMA
             if (q < aTolerance)
                 q = aTolerance;
 
+            if (q == 0)
+                return CGeoVector<Real>(0, 0, 0);
+
             if (q > 1.0)
                 return CGeoVector<Real>(0, 0, 0);
 
-- 
2.43.0


From e7bfbe93ff50b5cd4b40183fad31294fef94b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 072/120] fix: SPH particles move along their velocity

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index c99bfaf..cc0b862 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -124,8 +124,8 @@ namespace ENigMA
                 CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                 aNode1.x() += m_particles[i].velocity.x() * m_dt;
-                aNode1.y() += m_particles[i].velocity.z() * m_dt;
-                aNode1.z() += m_particles[i].velocity.y() * m_dt;
+                aNode1.y() += m_particles[i].velocity.y() * m_dt;
+                aNode1.z() += m_particles[i].velocity.z() * m_dt;
 
                 if (m_bCyclic)
                 {
-- 
2.43.0


From 93bf1dbb6384867ad4f6d4216bd72afa0adc6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 073/120] fix: SPH particles keep their spacing when they cross
 a cyclic boundary

---
 trunk/src/solvers/SphParticles_Imp.hpp | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index cc0b862..a0fedf6 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -129,20 +129,20 @@ namespace ENigMA
 
                 if (m_bCyclic)
                 {
-                    if (aNode1.x() >= m_boundary.max().x())
-                        aNode1.x() = m_boundary.min().x();
-                    else if (aNode1.x() <= m_boundary.min().x())
-                        aNode1.x() = m_boundary.max().x();
-
-                    if (aNode1.y() >= m_boundary.max().y())
-                        aNode1.y() = m_boundary.min().y();
-                    else if (aNode1.y() <= m_boundary.min().y())
-                        aNode1.y() = m_boundary.max().y();
-
-                    if (aNode1.z() >= m_boundary.max().z())
-                        aNode1.z() = m_boundary.min().z();
-                    else if (aNode1.z() <= m_boundary.min().z())
-                        aNode1.z() = m_boundary.max().z();
+                    if (aNode1.x() > m_boundary.max().x())
+                        aNode1.x() -= m_boundary.max().x() - m_boundary.min().x();
+                    else if (aNode1.x() < m_boundary.min().x())
+                        aNode1.x() += m_boundary.max().x() - m_boundary.min().x();
+
+                    if (aNode1.y() > m_boundary.max().y())
+                        aNode1.y() -= m_boundary.max().y() - m_boundary.min().y();
+                    else if (aNode1.y() < m_boundary.min().y())
+                        aNode1.y() += m_boundary.max().y() - m_boundary.min().y();
+
+                    if (aNode1.z() > m_boundary.max().z())
+                        aNode1.z() -= m_boundary.max().z() - m_boundary.min().z();
+                    else if (aNode1.z() < m_boundary.min().z())
+                        aNode1.z() += m_boundary.max().z() - m_boundary.min().z();
                 }
             }
         }
-- 
2.43.0


From 07201214e83372bf9cae3650d236420adf0e2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 074/120] fix: SPH sums include every particle within reach of
 the kernel

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index a0fedf6..f4a67db 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -93,7 +93,7 @@ namespace ENigMA
                 CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                 std::vector<Integer> sNodeIds;
-                aHashGrid.find(sNodeIds, aNode1, m_h);
+                aHashGrid.find(sNodeIds, aNode1, 3.0 * m_h); // no kernel reaches further
 
                 Real rho = 0.0;
 
@@ -160,7 +160,7 @@ namespace ENigMA
                     CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                     std::vector<Integer> sNodeIds;
-                    aHashGrid.find(sNodeIds, aNode1, m_h);
+                    aHashGrid.find(sNodeIds, aNode1, 3.0 * m_h); // no kernel reaches further
 
                     Real fd = 0.0;
 
-- 
2.43.0


From 6c2cdeb505f7b92243b03fe583bc788f1f7c1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 075/120] fix: SPH diffusion searches for neighbours among the
 moved particles

---
 trunk/src/solvers/SphParticles_Imp.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index f4a67db..1c45a6a 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -196,7 +196,11 @@ namespace ENigMA
 
             this->advectParticles(aField);
 
-            this->addDiffusion(aField, aHashGrid);
+            // The particles have moved
+            CGeoHashGrid<Real> aMovedHashGrid;
+            this->buildHashGrid(aField, aMovedHashGrid);
+
+            this->addDiffusion(aField, aMovedHashGrid);
         }
     }
 }
-- 
2.43.0


From 01be6f152b0b83c2e1ecc6b693811e3027848b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 076/120] fix: SPH diffusion does not depend on the order of
 the particles

---
 trunk/src/solvers/SphParticles_Imp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index 1c45a6a..6284fe1 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -150,6 +150,9 @@ namespace ENigMA
         template <typename Real>
         void CSphParticles<Real>::addDiffusion(CPdeField<Real>& aField, CGeoHashGrid<Real>& aHashGrid)
         {
+            // All particles exchange the values of the previous step
+            Eigen::Matrix<Real, Eigen::Dynamic, 1> u0 = aField.u;
+
             for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
             {
 
@@ -172,11 +175,11 @@ namespace ENigMA
                         CMshNode<Real>& aNode2 = aField.mesh().node(aNodeId2);
 
                         Integer j = aField.mesh().nodeIndex(aNodeId2);
-                        Real Tj = aField.u(j);
+                        Real Tj = u0(j);
 
                         CGeoVector<Real> r = aNode2 - aNode1;
 
-                        fd += (Tj - aField.u(i)) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
+                        fd += (Tj - u0(i)) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
                     }
 
                     aField.u(i) += m_particles[i].conductivity * fd * m_dt;
-- 
2.43.0


From b37fe6cc945ed88d7c77c628eabc028431f3b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 077/120] fix: SPH diffusion weighs particles by their volume

---
 trunk/src/solvers/SphParticles_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index 6284fe1..283c861 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -179,7 +179,7 @@ namespace ENigMA
 
                         CGeoVector<Real> r = aNode2 - aNode1;
 
-                        fd += (Tj - u0(i)) / m_particles[j].density * m_kernel->laplacianW(r, m_h);
+                        fd += (Tj - u0(i)) * m_particles[j].mass / m_particles[j].density * m_kernel->laplacianW(r, m_h);
                     }
 
                     aField.u(i) += m_particles[i].conductivity * fd * m_dt;
-- 
2.43.0


From 25dddfd1264b83f2bfcbac4db99ad7ce93643002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 078/120] fix: constant functions evaluate to their constant
 with any arguments

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index f4c375f..9d8d277 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -71,6 +71,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable, Real& aValue)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
@@ -88,6 +91,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable1, Real& aValue1, const std::string& aVariable2, Real& aValue2)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-- 
2.43.0


From f9cf517be4b423d341b995611bb319c36a2d86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 079/120] fix: functions keep their variables through
 evaluations, root searches and copies

---
 trunk/src/analytical/AnaFunction.hpp     |  9 +++-
 trunk/src/analytical/AnaFunction_Imp.hpp | 64 ++++++++++++------------
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/trunk/src/analytical/AnaFunction.hpp b/trunk/src/analytical/AnaFunction.hpp
index bbfd3aa..207699f 100644
--- a/trunk/src/analytical/AnaFunction.hpp
+++ b/trunk/src/analytical/AnaFunction.hpp
@@ -9,6 +9,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cctype>
+#include <map>
 #include <string>
 
 #include "exprtk.hpp"
@@ -24,10 +27,14 @@ namespace ENigMA
         {
         private:
             std::string m_expressionString;
-            exprtk::symbol_table<Real> m_symbolTable;
+            std::map<std::string, Real*> m_variables;
             Real m_value;
             bool m_constant;
 
+            static std::string key(const std::string& aVariable);
+
+            Real evaluate(const std::map<std::string, Real*>& sVariables);
+
         public:
             CAnaFunction();
             explicit CAnaFunction(Real aConstant);
diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index 9d8d277..a72fbc1 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -43,70 +43,68 @@ namespace ENigMA
         }
 
         template <typename Real>
-        void CAnaFunction<Real>::defineVariable(const std::string& aVariable, Real& aValue) { m_symbolTable.add_variable(aVariable, aValue); }
+        std::string CAnaFunction<Real>::key(const std::string& aVariable)
+        {
+            // Names of variables are not case sensitive
+            std::string aKey = aVariable;
+
+            std::transform(aKey.begin(), aKey.end(), aKey.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); });
+
+            return aKey;
+        }
 
         template <typename Real>
-        void CAnaFunction<Real>::undefineVariable(const std::string& aVariable) { m_symbolTable.remove_variable(aVariable); }
+        void CAnaFunction<Real>::defineVariable(const std::string& aVariable, Real& aValue) { m_variables[key(aVariable)] = &aValue; }
 
         template <typename Real>
-        void CAnaFunction<Real>::removeAllVariables() { m_symbolTable.clear(); }
+        void CAnaFunction<Real>::undefineVariable(const std::string& aVariable) { m_variables.erase(key(aVariable)); }
 
         template <typename Real>
-        Real CAnaFunction<Real>::evaluate()
+        void CAnaFunction<Real>::removeAllVariables() { m_variables.clear(); }
+
+        template <typename Real>
+        Real CAnaFunction<Real>::evaluate(const std::map<std::string, Real*>& sVariables)
         {
             if (m_constant)
                 return m_value;
 
+            exprtk::symbol_table<Real> symbolTable;
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
-            m_symbolTable.add_constants();
+            for (typename std::map<std::string, Real*>::const_iterator itr = sVariables.begin(); itr != sVariables.end(); ++itr)
+                symbolTable.add_variable(itr->first, *itr->second);
+
+            symbolTable.add_constants();
 
-            expression.register_symbol_table(m_symbolTable);
+            expression.register_symbol_table(symbolTable);
             parser.compile(m_expressionString, expression);
 
             return expression.value();
         }
 
+        template <typename Real>
+        Real CAnaFunction<Real>::evaluate() { return this->evaluate(m_variables); }
+
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable, Real& aValue)
         {
-            if (m_constant)
-                return m_value;
-
-            exprtk::expression<Real> expression;
-            exprtk::parser<Real> parser;
+            std::map<std::string, Real*> sVariables = m_variables;
 
-            m_symbolTable.clear();
+            sVariables[key(aVariable)] = &aValue;
 
-            m_symbolTable.add_variable(aVariable, aValue);
-            m_symbolTable.add_constants();
-
-            expression.register_symbol_table(m_symbolTable);
-            parser.compile(m_expressionString, expression);
-
-            return expression.value();
+            return this->evaluate(sVariables);
         }
 
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable1, Real& aValue1, const std::string& aVariable2, Real& aValue2)
         {
-            if (m_constant)
-                return m_value;
+            std::map<std::string, Real*> sVariables = m_variables;
 
-            exprtk::expression<Real> expression;
-            exprtk::parser<Real> parser;
-
-            m_symbolTable.clear();
-
-            m_symbolTable.add_variable(aVariable1, aValue1);
-            m_symbolTable.add_variable(aVariable2, aValue2);
-            m_symbolTable.add_constants();
+            sVariables[key(aVariable1)] = &aValue1;
+            sVariables[key(aVariable2)] = &aValue2;
 
-            expression.register_symbol_table(m_symbolTable);
-            parser.compile(m_expressionString, expression);
-
-            return expression.value();
+            return this->evaluate(sVariables);
         }
 
         template <typename Real>
-- 
2.43.0


From 1ebc06b0b4f6b724a4f77b2b0a733ff344068eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 080/120] fix: Brent search returns the end where the function
 is closest to zero

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index a72fbc1..45adcdb 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -162,7 +162,9 @@ namespace ENigMA
             // if f(a) f(b) >= 0 then error-exit
             if (fa * fb >= 0)
             {
-                if (fa < fb)
+                nIterations = 0;
+
+                if (std::fabs(fa) < std::fabs(fb))
                     return a;
                 else
                     return b;
-- 
2.43.0


From 01c25cbc9db05e12c620229f3108637d93594e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 081/120] fix: signs of the three-dimensional transient
 conduction series

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index bfdb1f6..aaa6c44 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -190,7 +190,7 @@ namespace ENigMA
                     {
                         Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * q + 1) + (2 * r + 1) * (2 * r + 1));
 
-                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
+                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q + r) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
                     }
                 }
             }
-- 
2.43.0


From 76e9ec1c2a9f0a67d86fbb1e26846b4832f9e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 082/120] fix: temperature of a beam with convection and
 radiation

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index aaa6c44..678376b 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -114,7 +114,8 @@ namespace ENigMA
 
             Real G, M, x1, Tb1;
 
-            G = 2.0 / 3.0 * perimeter * e * sigma / (k * sectionArea);
+            // First integral: (dT/dx)^2 = M T^2 + G T^5
+            G = 2.0 / 5.0 * perimeter * e * sigma / (k * sectionArea);
             M = h * perimeter / (k * sectionArea);
             x1 = x;
             Tb1 = Tb;
@@ -124,11 +125,14 @@ namespace ENigMA
             CAnaFunction<Real>::defineVariable("x1", x1);
             CAnaFunction<Real>::defineVariable("Tb1", Tb1);
 
-            CAnaFunction<Real>::set("1/3*M^(-1/2)*(ln(((G*Tb^3+M)^(1/2)-M^(1/2))/((G*Tb^3+M)^(1/2)+M^(1/2)))-ln(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x");
+            CAnaFunction<Real>::set("1/3*M^(-1/2)*(log(((G*Tb1^3+M)^(1/2)-M^(1/2))/((G*Tb1^3+M)^(1/2)+M^(1/2)))-log(((G*T^3+M)^(1/2)-M^(1/2))/((G*T^3+M)^(1/2)+M^(1/2))))-x1");
 
             Integer nIter;
 
             T = CAnaFunction<Real>::root("T", 1E-12, Tb, nIter, 100, 1E-12);
+
+            // The definitions refer to the variables above
+            CAnaFunction<Real>::removeAllVariables();
         }
 
         template <typename Real>
-- 
2.43.0


From b97cf4ebda0732cfa23f7167ef2f37ec96b4adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 083/120] fix: BSP trees end where rounding puts a polygon off
 its own plane

---
 trunk/src/csg/CsgBspNode_Imp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBspNode_Imp.hpp b/trunk/src/csg/CsgBspNode_Imp.hpp
index 7d5736f..7b1bf01 100644
--- a/trunk/src/csg/CsgBspNode_Imp.hpp
+++ b/trunk/src/csg/CsgBspNode_Imp.hpp
@@ -134,7 +134,10 @@ namespace ENigMA
             std::vector<CGeoPolygon<Real>> sFront;
             std::vector<CGeoPolygon<Real>> sBack;
 
-            for (Integer i = 0; i < static_cast<Integer>(sPolygons.size()); ++i)
+            // The polygon the plane was taken from lies in it, whatever rounding says of its vertices
+            this->m_polygons.push_back(sPolygons[0]);
+
+            for (Integer i = 1; i < static_cast<Integer>(sPolygons.size()); ++i)
                 this->splitPolygon(sPolygons[i], this->m_polygons, this->m_polygons, sFront, sBack);
 
             if (sFront.size() > 0)
-- 
2.43.0


From bbf6d569b3cb195f0aa85b711af4a8ad770b3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 084/120] fix: BSP trees split edges as short as rounding

---
 trunk/src/csg/CsgBspNode_Imp.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBspNode_Imp.hpp b/trunk/src/csg/CsgBspNode_Imp.hpp
index 7b1bf01..ef6473e 100644
--- a/trunk/src/csg/CsgBspNode_Imp.hpp
+++ b/trunk/src/csg/CsgBspNode_Imp.hpp
@@ -220,7 +220,11 @@ namespace ENigMA
 
                     if ((ti | tj) == CSG_SPANNING)
                     {
-                        Real t = (this->m_plane.d() - this->m_plane.normal().dot(vi)) / this->m_plane.normal().dot(vj - vi);
+                        // The distances differ in sign, an edge as short as rounding may still lie in the plane
+                        Real di = this->m_plane.normal().dot(vi) - this->m_plane.d();
+                        Real dj = this->m_plane.normal().dot(vj) - this->m_plane.d();
+
+                        Real t = di / (di - dj);
                         CGeoCoordinate<Real> v = vi + (vj - vi) * t;
 
                         aPolygonFront.polyline().addVertex(v);
-- 
2.43.0


From 27c441a2725ccadf4edf24dd32d3419f470c75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 085/120] fix: booleans without a tolerance allow for rounding

---
 trunk/src/csg/CsgBspNode_Imp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/src/csg/CsgBspNode_Imp.hpp b/trunk/src/csg/CsgBspNode_Imp.hpp
index ef6473e..c86c15d 100644
--- a/trunk/src/csg/CsgBspNode_Imp.hpp
+++ b/trunk/src/csg/CsgBspNode_Imp.hpp
@@ -173,8 +173,12 @@ namespace ENigMA
             {
                 Real t = this->m_plane.normal().dot(aPolygon.polyline().vertex(i)) - this->m_plane.d();
 
-                int aVertexType = (t < -m_tolerance) ? CSG_BACK : (t > m_tolerance) ? CSG_FRONT
-                                                                                    : CSG_COPLANAR;
+                // A vertex can't be told from the plane within rounding
+                Real aRounding = 256 * std::numeric_limits<Real>::epsilon() * aPolygon.polyline().vertex(i).norm();
+                Real aTolerance = std::max(m_tolerance, aRounding);
+
+                int aVertexType = (t < -aTolerance) ? CSG_BACK : (t > aTolerance) ? CSG_FRONT
+                                                                                  : CSG_COPLANAR;
 
                 aPolygonType |= aVertexType;
                 sVertexTypes.push_back(aVertexType);
-- 
2.43.0


From 629f2cb60bf856724d80a92539a65b4dc4376fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 086/120] fix: booleans with nothing

---
 trunk/src/csg/CsgBoolean_Imp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trunk/src/csg/CsgBoolean_Imp.hpp b/trunk/src/csg/CsgBoolean_Imp.hpp
index 45c313f..1395b20 100644
--- a/trunk/src/csg/CsgBoolean_Imp.hpp
+++ b/trunk/src/csg/CsgBoolean_Imp.hpp
@@ -72,6 +72,12 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::add(CCsgBoolean<Real> aCSg)
         {
+            if (this->m_polygons.empty())
+                return CCsgBoolean(aCSg.m_polygons, m_tolerance);
+
+            if (aCSg.m_polygons.empty())
+                return *this;
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
@@ -106,6 +112,9 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::subtract(CCsgBoolean<Real> aCSg)
         {
+            if (this->m_polygons.empty() || aCSg.m_polygons.empty())
+                return *this;
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
@@ -139,6 +148,9 @@ namespace ENigMA
         template <typename Real>
         CCsgBoolean<Real> CCsgBoolean<Real>::intersect(CCsgBoolean<Real> aCSg)
         {
+            if (this->m_polygons.empty() || aCSg.m_polygons.empty())
+                return CCsgBoolean(m_tolerance);
+
             CCsgBspNode<Real> a(this->m_polygons, m_tolerance);
             CCsgBspNode<Real> b(aCSg.m_polygons, m_tolerance);
 
-- 
2.43.0


From 26ab086a9c755ea45d0b22fd84ef5ecce2216faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 087/120] fix: differences of solids whose faces share a plane

---
 trunk/src/csg/CsgBoolean_Imp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/src/csg/CsgBoolean_Imp.hpp b/trunk/src/csg/CsgBoolean_Imp.hpp
index 1395b20..f929a04 100644
--- a/trunk/src/csg/CsgBoolean_Imp.hpp
+++ b/trunk/src/csg/CsgBoolean_Imp.hpp
@@ -120,7 +120,10 @@ namespace ENigMA
 
             a.invert();
             a.clipTo(b);
-            b.clipTo(a, true);
+            b.clipTo(a);
+            b.invert();
+            b.clipTo(a);
+            b.invert();
             a.build(b.allPolygons());
             a.invert();
 
-- 
2.43.0


From 48557d28d8c9de17c9375910a250475d92d3a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 088/120] fix: STL facets are listed once and only removed if
 they are there

---
 trunk/src/stl/StlFile_Imp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trunk/src/stl/StlFile_Imp.hpp b/trunk/src/stl/StlFile_Imp.hpp
index f26da9a..f834a70 100644
--- a/trunk/src/stl/StlFile_Imp.hpp
+++ b/trunk/src/stl/StlFile_Imp.hpp
@@ -113,15 +113,17 @@ namespace ENigMA
         template <typename Real>
         void CStlFile<Real>::addFacet(const Integer aFacetId, CStlFacet<Real>& aFacet)
         {
+            if (m_facets.find(aFacetId) == m_facets.end())
+                m_facetIds.emplace_back(aFacetId);
+
             m_facets[aFacetId] = aFacet;
-            m_facetIds.emplace_back(aFacetId);
         }
 
         template <typename Real>
         void CStlFile<Real>::removeFacet(const Integer aFacetId)
         {
-            m_facets.erase(aFacetId);
-            m_facetIds.erase(std::find(m_facetIds.begin(), m_facetIds.end(), aFacetId));
+            if (m_facets.erase(aFacetId) > 0)
+                m_facetIds.erase(std::find(m_facetIds.begin(), m_facetIds.end(), aFacetId));
         }
 
         template <typename Real>
-- 
2.43.0


From 7c2310b7d422e7e7f71300699d81faa3771e1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 089/120] fix: saving an STL file reports when it could not be
 written

---
 trunk/src/stl/StlUtils_Imp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 9a289ca..0b2a569 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -316,9 +316,11 @@ namespace ENigMA
                 fileSTL << "endsolid" << std::endl;
 
                 fileSTL.close();
+
+                return !fileSTL.fail();
             }
 
-            return true;
+            return false;
         }
 
         template <typename Real>
@@ -386,9 +388,11 @@ namespace ENigMA
                 }
 
                 fileSTL.close();
+
+                return !fileSTL.fail();
             }
 
-            return true;
+            return false;
         }
 
         template <typename Real>
-- 
2.43.0


From 3b6103804d437fc599e0fba5302b76076de469a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 090/120] fix: STL files smaller than the probed part are read

---
 trunk/src/stl/StlUtils_Imp.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 0b2a569..18fcb5b 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -99,17 +99,18 @@ namespace ENigMA
                 // Check for binary or ASCII file
                 fileSTL.seekg(HEADER_SIZE);
 
-                char chtest[256];
-                fileSTL.read(chtest, sizeof(chtest));
+                // Small files end before this buffer is full
+                std::string chtest(256, ' ');
+                fileSTL.read(&chtest[0], chtest.size());
+                chtest.resize(static_cast<size_t>(fileSTL.gcount()));
+
+                fileSTL.clear();
 
                 if (fileSTL)
                 {
                     m_stlFile.stats.type = FT_ASCII;
 
-                    char* pch;
-                    pch = strstr(chtest, "vertex");
-
-                    if (pch == NULL)
+                    if (chtest.find("vertex") == std::string::npos)
                         m_stlFile.stats.type = FT_BINARY;
 
                     fileSTL.seekg(0);
-- 
2.43.0


From 0f9eaa19ec94e86d1f67ff103d9678b41a5eddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 091/120] fix: ASCII STL files are read by their words, not by
 counting lines

---
 trunk/src/stl/StlUtils.hpp     |   1 +
 trunk/src/stl/StlUtils_Imp.hpp | 121 +++++++++++++++------------------
 2 files changed, 56 insertions(+), 66 deletions(-)

diff --git a/trunk/src/stl/StlUtils.hpp b/trunk/src/stl/StlUtils.hpp
index fdd1c0d..bd1ab03 100644
--- a/trunk/src/stl/StlUtils.hpp
+++ b/trunk/src/stl/StlUtils.hpp
@@ -60,6 +60,7 @@ namespace ENigMA
 
             Real getFloat(std::ifstream& stream);
             Integer getInt(std::ifstream& stream);
+            bool getNumber(std::ifstream& stream, Real& aValue);
 
             void invertFacet(Integer aFacetId, Integer aVertexNot);
 
diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 18fcb5b..5ffae74 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -11,6 +11,9 @@
 
 #pragma warning(disable : 4996)
 
+#include <algorithm>
+#include <cctype>
+#include <cstdlib>
 #include <fstream>
 
 #include "GeoHashGrid.hpp"
@@ -147,55 +150,8 @@ namespace ENigMA
                         // Get the header
                         std::getline(fileSTL, line);
 
-                        char fhtest[5];
-
-                        // Discard spaces
-                        Integer c = 0;
-
-                        while (c < 5)
-                        {
-                            char letter = fileSTL.get();
-
-                            if (letter != 32)
-                            {
-                                fhtest[c] = letter;
-                                c++;
-                            }
-                        }
-
-#ifdef WIN32
-                        if (strnicmp(fhtest, "facet", sizeof(fhtest)) != 0)
-                            return false;
-#else
-                        if (strncasecmp(fhtest, "facet", sizeof(fhtest)) != 0)
-                            return false;
-#endif
-
-                        fileSTL.seekg(0);
-
-                        // Find the number of facets
-                        Integer numLines = 1;
-
-                        for (Integer i = 0, j = 0; i < m_stlFile.stats.fileSize; i++, ++j)
-                        {
-                            if (fileSTL.get() == '\n')
-                            {
-                                if (j > 4) // don't count short lines
-                                    numLines++;
-
-                                j = 0;
-                            }
-                        }
-
-                        fileSTL.seekg(0);
-
-                        // Read the header
-                        for (Integer i = 0; (i < 80) && (m_stlFile.stats.header[i] = static_cast<char>(fileSTL.get())) != '\n'; ++i)
-                            ;
-
-                        m_stlFile.stats.header[80] = '\0';
-
-                        numFacets = numLines / ASCII_LINES_PER_FACET;
+                        std::fill(m_stlFile.stats.header, m_stlFile.stats.header + 81, '\0');
+                        line.copy(m_stlFile.stats.header, 80);
                     }
 
                     if (m_stlFile.stats.type == FT_BINARY)
@@ -211,12 +167,12 @@ namespace ENigMA
 
                     m_stlFile.reset();
 
-                    for (Integer i = 0; i < numFacets; ++i)
+                    if (m_stlFile.stats.type == FT_BINARY)
                     {
-                        CStlFacet<Real> aFacet;
-
-                        if (m_stlFile.stats.type == FT_BINARY)
+                        for (Integer i = 0; i < numFacets; ++i)
                         {
+                            CStlFacet<Real> aFacet;
+
                             // Read a single facet from a binary .STL file
                             aFacet.normal().x() = this->getFloat(fileSTL);
                             aFacet.normal().y() = this->getFloat(fileSTL);
@@ -235,35 +191,54 @@ namespace ENigMA
 
                             aFacet.extra[0] = static_cast<char>(fileSTL.get());
                             aFacet.extra[1] = static_cast<char>(fileSTL.get());
+
+                            // Add the facet.
+                            m_stlFile.addFacet(i, aFacet);
                         }
-                        else
+                    }
+                    else
+                    {
+                        std::string strWord;
+
+                        // Whatever lies between the facets, as the ends and names of solids, is skipped
+                        while (fileSTL >> strWord)
                         {
-                            std::string strFacet, strNormal;
+                            std::transform(strWord.begin(), strWord.end(), strWord.begin(), ::tolower);
+
+                            if (strWord != "facet")
+                                continue;
+
+                            CStlFacet<Real> aFacet;
+
+                            std::string strNormal;
                             std::string strOuter, strLoop;
                             std::string strVertex;
-                            std::string strEndLoop;
-                            std::string strEndFacet;
 
                             // Read a single facet from an ASCII .STL file
-                            fileSTL >> strFacet >> strNormal >> aFacet.normal().x() >> aFacet.normal().y() >> aFacet.normal().z();
+                            bool bRead = static_cast<bool>(fileSTL >> strNormal);
 
-                            fileSTL >> strOuter >> strLoop;
+                            bRead = bRead && this->getNumber(fileSTL, aFacet.normal().x()) && this->getNumber(fileSTL, aFacet.normal().y()) && this->getNumber(fileSTL, aFacet.normal().z());
 
-                            for (Integer j = 0; j < 3; ++j)
+                            bRead = bRead && fileSTL >> strOuter >> strLoop;
+
+                            for (Integer j = 0; j < 3 && bRead; ++j)
                             {
                                 CGeoCoordinate<Real> aVertex;
 
-                                fileSTL >> strVertex >> aVertex.x() >> aVertex.y() >> aVertex.z();
+                                bRead = fileSTL >> strVertex && this->getNumber(fileSTL, aVertex.x()) && this->getNumber(fileSTL, aVertex.y()) && this->getNumber(fileSTL, aVertex.z());
 
                                 aFacet.addVertex(aVertex);
                             }
 
-                            fileSTL >> strEndLoop;
-                            fileSTL >> strEndFacet;
-                        }
+                            if (!bRead)
+                            {
+                                m_stlFile.reset();
+                                return false;
+                            }
 
-                        // Add the facet.
-                        m_stlFile.addFacet(i, aFacet);
+                            // Add the facet.
+                            m_stlFile.addFacet(m_stlFile.nbFacets(), aFacet);
+                        }
                     }
                 }
 
@@ -347,6 +322,20 @@ namespace ENigMA
             return static_cast<Real>(fvalue);
         }
 
+        template <typename Real>
+        bool CStlUtils<Real>::getNumber(std::ifstream& stream, Real& aValue)
+        {
+            std::string strNumber;
+
+            if (!(stream >> strNumber))
+                return false;
+
+            char* pEnd;
+            aValue = static_cast<Real>(std::strtod(strNumber.c_str(), &pEnd));
+
+            return *pEnd == '\0';
+        }
+
         template <typename Real>
         Integer CStlUtils<Real>::getInt(std::ifstream& stream)
         {
-- 
2.43.0


From 424e980da66f3656ee0f18931b7b64e6c3c9fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 092/120] fix: STL edges that cross at their centers are not
 neighbours

---
 trunk/src/stl/StlUtils_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 5ffae74..0fe9a47 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -598,6 +598,15 @@ namespace ENigMA
                             Integer ni = sCoordinates.at(k) / 3;
                             Integer nj = sCoordinates.at(k) % 3;
 
+                            // Edges may cross at their centers without being the same
+                            CGeoVector<Real> v00 = m_stlFile.facet(ni).vertex((nj + 0) % 3) - m_stlFile.facet(aFacetId).vertex((j + 0) % 3);
+                            CGeoVector<Real> v01 = m_stlFile.facet(ni).vertex((nj + 0) % 3) - m_stlFile.facet(aFacetId).vertex((j + 1) % 3);
+                            CGeoVector<Real> v10 = m_stlFile.facet(ni).vertex((nj + 1) % 3) - m_stlFile.facet(aFacetId).vertex((j + 0) % 3);
+                            CGeoVector<Real> v11 = m_stlFile.facet(ni).vertex((nj + 1) % 3) - m_stlFile.facet(aFacetId).vertex((j + 1) % 3);
+
+                            if (std::min(std::max(v00.norm(), v11.norm()), std::max(v01.norm(), v10.norm())) > aTolerance)
+                                continue;
+
                             m_stlFile.facet(aFacetId).edge(j).setNeighbor(ni);
                             m_stlFile.facet(aFacetId).edge(j).setWhichVertexNot((nj + 2) % 3);
 
-- 
2.43.0


From 7446052ac33fb79ab70e093dda1dc5be937d0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 093/120] fix: mesh of an STL surface with vertices shared by
 many facets

---
 trunk/src/stl/StlUtils_Imp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 0fe9a47..442e90d 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -671,7 +671,8 @@ namespace ENigMA
 
                     Integer aPivotVertex, aNextEdge;
 
-                    for (Integer k = 0; k < 100; k++)
+                    // No facet is passed more than once in each direction
+                    for (Integer k = 0; k < 2 * m_stlFile.nbFacets() + 1; k++)
                     {
                         if (aVertexNot > 2)
                         {
-- 
2.43.0


From 3721ee935508d28bde3f0c901886c5c26c3444a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 094/120] fix: pointing an STL surface in or out overwrote its
 first facet

---
 trunk/src/stl/StlUtils.hpp     |  1 +
 trunk/src/stl/StlUtils_Imp.hpp | 49 ++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/trunk/src/stl/StlUtils.hpp b/trunk/src/stl/StlUtils.hpp
index bd1ab03..e451129 100644
--- a/trunk/src/stl/StlUtils.hpp
+++ b/trunk/src/stl/StlUtils.hpp
@@ -63,6 +63,7 @@ namespace ENigMA
             bool getNumber(std::ifstream& stream, Real& aValue);
 
             void invertFacet(Integer aFacetId, Integer aVertexNot);
+            std::vector<Integer> orientLike(Integer aPivotFacetId, const Real aTolerance);
 
         public:
             CStlUtils();
diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 442e90d..aff33e1 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1442,6 +1442,14 @@ namespace ENigMA
 
         template <typename Real>
         bool CStlUtils<Real>::setOrientation(Integer aPivotFacetId, const Real aTolerance)
+        {
+            this->orientLike(aPivotFacetId, aTolerance);
+
+            return true;
+        }
+
+        template <typename Real>
+        std::vector<Integer> CStlUtils<Real>::orientLike(Integer aPivotFacetId, const Real aTolerance)
         {
             std::vector<Integer> sFacetsToFix;
 
@@ -1472,44 +1480,39 @@ namespace ENigMA
                 }
             }
 
-            return true;
+            return sFacetsToFix;
         }
 
         template <typename Real>
         bool CStlUtils<Real>::setOrientation(bool bPointOut, const Real aTolerance)
         {
-            Integer aFacetId = m_stlFile.facetId(0);
-            CStlFacet<Real>& aFacet = m_stlFile.facet(aFacetId);
-
-            aFacet.calculateNormal();
-            aFacet.calculateCentroid();
+            if (m_stlFile.nbFacets() == 0)
+                return false;
 
-            CGeoCoordinate<Real> aStartPoint = aFacet.centroid();
-            CGeoCoordinate<Real> anEndPoint = aStartPoint + aFacet.normal() * m_stlFile.stats.size.norm();
+            Integer aFacetId = m_stlFile.facetId(0);
 
-            CGeoIntersectionType anIntersectionType;
-            CGeoLine<Real> aLine(aStartPoint, anEndPoint);
-            CGeoCoordinate<Real> aNewPoint;
+            std::vector<Integer> sFacetIds = this->orientLike(aFacetId, aTolerance);
 
-            Integer nbIntersections = 0;
+            // The enclosed volume is positive if the facets point out
+            CGeoCoordinate<Real> anOrigin = m_stlFile.facet(aFacetId).vertex(0);
+            Real aVolume = 0.0;
 
-            for (Integer i = 1; i < m_stlFile.nbFacets(); ++i)
+            for (Integer i = 0; i < static_cast<Integer>(sFacetIds.size()); ++i)
             {
-                aFacetId = m_stlFile.facetId(i);
-                aFacet = m_stlFile.facet(aFacetId);
-
-                aFacet.calculateNormal();
+                CGeoVector<Real> v0 = m_stlFile.facet(sFacetIds[i]).vertex(0) - anOrigin;
+                CGeoVector<Real> v1 = m_stlFile.facet(sFacetIds[i]).vertex(1) - anOrigin;
+                CGeoVector<Real> v2 = m_stlFile.facet(sFacetIds[i]).vertex(2) - anOrigin;
 
-                if (aFacet.intersects(aLine, aNewPoint, anIntersectionType, aTolerance))
-                    nbIntersections++;
+                aVolume += v0.dot(v1.cross(v2));
             }
 
-            //std::cout << nbIntersections << std::endl;
-
-            if (nbIntersections % 2 != 0)
+            if ((aVolume < 0.0) == bPointOut)
+            {
                 this->invertFacet(aFacetId, 0);
+                this->orientLike(aFacetId, aTolerance);
+            }
 
-            return this->setOrientation(aFacetId, aTolerance);
+            return true;
         }
     }
 }
-- 
2.43.0


From 417637fa0b33501a3f8e906b9abef9e2891c69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 095/120] fix: inverted STL facets take their normals along

---
 trunk/src/stl/StlUtils_Imp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index aff33e1..efa72fd 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1407,6 +1407,7 @@ namespace ENigMA
             CGeoCoordinate<Real> anAux = m_stlFile.facet(aFacetId).vertex((aVertexNot + 2) % 3);
             m_stlFile.facet(aFacetId).setVertex((aVertexNot + 2) % 3, m_stlFile.facet(aFacetId).vertex((aVertexNot + 1) % 3));
             m_stlFile.facet(aFacetId).setVertex((aVertexNot + 1) % 3, anAux);
+            m_stlFile.facet(aFacetId).calculateNormal(true);
 
             Integer aNeighborId2 = m_stlFile.facet(aFacetId).edge((aVertexNot + 2) % 3).neighbor();
             Integer aNeighborId3 = m_stlFile.facet(aFacetId).edge((aVertexNot + 3) % 3).neighbor();
-- 
2.43.0


From 451aea6bb6d89e460f7749cc88096518a66fb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 096/120] fix: one of each set of duplicate STL facets is kept

---
 trunk/src/stl/StlUtils_Imp.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index efa72fd..6854980 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -15,6 +15,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <fstream>
+#include <set>
 
 #include "GeoHashGrid.hpp"
 
@@ -473,7 +474,7 @@ namespace ENigMA
             {
                 Integer aFacetId = m_stlFile.facetId(i);
 
-                m_stlFile.facet(aFacetId).calculateCentroid();
+                m_stlFile.facet(aFacetId).calculateCentroid(true);
                 CGeoCoordinate<Real> aCenterCoordinate = m_stlFile.facet(aFacetId).centroid();
 
                 aHashGrid.addGeometricObject(aFacetId, aCenterCoordinate);
@@ -481,31 +482,45 @@ namespace ENigMA
 
             aHashGrid.build();
 
+            std::set<Integer> sRemovedIds;
+
             for (Integer i = 0; i < m_stlFile.nbFacets(); ++i)
             {
                 Integer aFacetId = m_stlFile.facetId(i);
 
-                m_stlFile.facet(aFacetId).calculateArea();
-
                 std::vector<Integer> sCoordinates;
 
                 CGeoCoordinate<Real> aCenterCoordinate = m_stlFile.facet(aFacetId).centroid();
 
                 aHashGrid.find(sCoordinates, aCenterCoordinate, aTolerance);
 
-                for (Integer k = 1; k < static_cast<Integer>(sCoordinates.size()); ++k)
+                for (Integer k = 0; k < static_cast<Integer>(sCoordinates.size()); ++k)
                 {
                     Integer wFacetId = sCoordinates.at(k);
 
-                    m_stlFile.facet(wFacetId).calculateArea();
+                    if (wFacetId == aFacetId || sRemovedIds.find(wFacetId) != sRemovedIds.end())
+                        continue;
+
+                    // Duplicates have the same vertices, in any order
+                    bool bMatch = false;
+
+                    Integer sOrder[3] = { 0, 1, 2 };
+
+                    do
+                    {
+                        bool bSame = true;
+
+                        for (Integer j = 0; j < 3; ++j)
+                            bSame = bSame && (m_stlFile.facet(aFacetId).vertex(j) - m_stlFile.facet(wFacetId).vertex(sOrder[j])).norm() <= aTolerance;
 
-                    Real area_diff = std::fabs(m_stlFile.facet(aFacetId).area() - m_stlFile.facet(wFacetId).area());
+                        bMatch = bMatch || bSame;
+                    } while (std::next_permutation(sOrder, sOrder + 3));
 
-                    if (area_diff < aTolerance * aTolerance)
+                    if (bMatch)
                     {
-                        // Remove this facet
+                        // Remove this facet, which comes after the one it repeats
                         this->removeFacet(wFacetId);
-                        i--;
+                        sRemovedIds.insert(wFacetId);
                     }
                 }
             }
-- 
2.43.0


From 0c4a494a399f7766a587452be4a14918bab589cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 097/120] fix: splitting STL facets relates them by their
 identifiers

---
 trunk/src/stl/StlUtils_Imp.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 6854980..9955193 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -888,7 +888,7 @@ namespace ENigMA
                         aNewFacet1.edge(0).setNeighbor(-1);
 
                     aNewFacet1.edge(1).setNeighbor(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).neighbor());
-                    aNewFacet1.edge(2).setNeighbor(i);
+                    aNewFacet1.edge(2).setNeighbor(aFacetId);
 
                     aNewFacet1.edge(0).setWhichVertexNot(1);
                     aNewFacet1.edge(1).setWhichVertexNot(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).whichVertexNot());
@@ -900,13 +900,13 @@ namespace ENigMA
 
                     if (neighbor_c != -1)
                     {
-                        m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                        m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(aNewFacetId1);
                         m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                     }
 
                     // Facet: i
                     m_stlFile.facet(aFacetId).setVertex((bedg + 1) % 3, pn);
-                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNeighbor(aNewFacetId1);
                     m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setWhichVertexNot(1);
 
                     // Add new facet 1
@@ -939,13 +939,13 @@ namespace ENigMA
 
                         if (neighbor_c != -1)
                         {
-                            m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(m_stlFile.nbFacets());
+                            m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setNeighbor(aNewFacetId2);
                             m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                         }
 
                         // Facet: neighbor
                         m_stlFile.facet(neighbor).setVertex((vertexNot + 1) % 3, pn);
-                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNeighbor(m_stlFile.nbFacets());
+                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNeighbor(aNewFacetId2);
                         m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setWhichVertexNot(2);
 
                         // Add new facet 2
-- 
2.43.0


From 340d1a82705033fec5747a9e951b731573aedb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 098/120] fix: split STL facets keep the outlines of their
 edges

---
 trunk/src/stl/StlUtils_Imp.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 9955193..4273952 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -904,6 +904,14 @@ namespace ENigMA
                         m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                     }
 
+                    // The new edges are parts of the old ones or lie inside of the old facet
+                    aNewFacet1.edge(0).setOutline(m_stlFile.facet(aFacetId).edge((bedg + 0) % 3).outline());
+                    aNewFacet1.edge(1).setOutline(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).outline());
+                    aNewFacet1.edge(1).setNaked(m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).naked());
+
+                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setOutline(false);
+                    m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNaked(false);
+
                     // Facet: i
                     m_stlFile.facet(aFacetId).setVertex((bedg + 1) % 3, pn);
                     m_stlFile.facet(aFacetId).edge((bedg + 1) % 3).setNeighbor(aNewFacetId1);
@@ -943,6 +951,13 @@ namespace ENigMA
                             m_stlFile.facet(neighbor_c).edge((vertex_not_c + 1) % 3).setWhichVertexNot(0);
                         }
 
+                        aNewFacet2.edge(1).setOutline(m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).outline());
+                        aNewFacet2.edge(1).setNaked(m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).naked());
+                        aNewFacet2.edge(2).setOutline(m_stlFile.facet(neighbor).edge((vertexNot + 1) % 3).outline());
+
+                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setOutline(false);
+                        m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNaked(false);
+
                         // Facet: neighbor
                         m_stlFile.facet(neighbor).setVertex((vertexNot + 1) % 3, pn);
                         m_stlFile.facet(neighbor).edge((vertexNot + 0) % 3).setNeighbor(aNewFacetId2);
-- 
2.43.0


From 41e5d7cc10f651ff8f9b0cd0a78ee2abd2ba1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 099/120] fix: walks around STL vertices end at the facet they
 started from

---
 trunk/src/stl/StlUtils_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 4273952..a8c7b42 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1051,7 +1051,7 @@ namespace ENigMA
                         aNextFacet = aNeighbor;
                         aNextEdge = (aVertexNot + 2) % 3;
 
-                    } while (aNextFacet != i);
+                    } while (aNextFacet != aFacetId);
 
                     if (fixedNode == true)
                         continue;
@@ -1390,7 +1390,7 @@ namespace ENigMA
                         break;
                     }
 
-                } while (aNextFacet != i);
+                } while (aNextFacet != aFacetId);
 
                 if (fixedNode)
                     continue;
-- 
2.43.0


From c7d5e1a9d901adc10bd448f3615d424beae9d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 100/120] fix: STL facets are judged by their current normals
 and areas

---
 trunk/src/stl/StlUtils_Imp.hpp | 66 +++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index a8c7b42..3f42da6 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1072,12 +1072,12 @@ namespace ENigMA
                     {
                         CGeoNormal<Real> normal_i, normal_f;
 
-                        aFacet_i[k].calculateNormal();
+                        aFacet_i[k].calculateNormal(true);
                         normal_i = aFacet_i[k].normal();
 
                         aFacet_f[k].setVertex((whichVertex[k] + 1) % 3, aNewVertex);
 
-                        aFacet_f[k].calculateNormal();
+                        aFacet_f[k].calculateNormal(true);
                         normal_f = aFacet_f[k].normal();
 
                         if (std::fabs(normal_f.angle(normal_i)) > 0.5)
@@ -1087,7 +1087,10 @@ namespace ENigMA
                     if (fixedNode == false)
                     {
                         for (Integer k = 0; k < static_cast<Integer>(whichFacet.size()); ++k)
+                        {
                             m_stlFile.facet(whichFacet[k]).setVertex((whichVertex[k] + 1) % 3, aNewVertex);
+                            m_stlFile.facet(whichFacet[k]).calculateNormal(true);
+                        }
                     }
                 }
             }
@@ -1102,7 +1105,7 @@ namespace ENigMA
             {
                 Integer aFacetId = m_stlFile.facetId(i);
 
-                m_stlFile.facet(aFacetId).calculateNormal();
+                m_stlFile.facet(aFacetId).calculateNormal(true);
             }
 
             for (Integer i = 0; i < m_stlFile.nbFacets(); ++i)
@@ -1155,7 +1158,7 @@ namespace ENigMA
                 CGeoCoordinate<Real> p1 = m_stlFile.facet(aFacetId).vertex(1);
                 CGeoCoordinate<Real> p2 = m_stlFile.facet(aFacetId).vertex(2);
 
-                m_stlFile.facet(aFacetId).calculateNormal();
+                m_stlFile.facet(aFacetId).calculateNormal(true);
                 CGeoNormal<Real> normal_i = m_stlFile.facet(aFacetId).normal();
 
                 for (Integer j = 0; j < 3; ++j)
@@ -1174,12 +1177,12 @@ namespace ENigMA
 
                     CGeoCoordinate<Real> p3 = m_stlFile.facet(aNeighborId).vertex(vertexNot);
 
-                    m_stlFile.facet(aNeighborId).calculateNormal();
+                    m_stlFile.facet(aNeighborId).calculateNormal(true);
                     CGeoNormal<Real> normal_j = m_stlFile.facet(aNeighborId).normal();
 
                     Real ang = normal_i.angle(normal_j);
 
-                    m_stlFile.facet(aFacetId).calculateArea();
+                    m_stlFile.facet(aFacetId).calculateArea(true);
                     Real area = m_stlFile.facet(aFacetId).area();
 
                     if (std::fabs(ang) < swapAngle || area < std::numeric_limits<Real>::min())
@@ -1191,12 +1194,11 @@ namespace ENigMA
 
                         this->getFacetQuality(m_stlFile.facet(aFacetId), sedg, bedg, dmin, dmax, qi);
 
-                        m_stlFile.facet(aNeighborId).calculateNormal();
                         CGeoNormal<Real> iNormal_i = m_stlFile.facet(aFacetId).normal();
 
                         this->getFacetQuality(m_stlFile.facet(aNeighborId), sedg, bedg, dmin, dmax, qj);
 
-                        m_stlFile.facet(aNeighborId).calculateNormal();
+                        m_stlFile.facet(aNeighborId).calculateNormal(true);
                         CGeoNormal<Real> iNormal_j = m_stlFile.facet(aNeighborId).normal();
 
                         Real qmini = std::min(qi, qj);
@@ -1209,63 +1211,63 @@ namespace ENigMA
                         case 0:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p3);
-                            newFacet_i.insertVertex(2, p2);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p3);
+                            newFacet_i.setVertex(2, p2);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p1);
-                            newFacet_j.insertVertex(1, p2);
-                            newFacet_j.insertVertex(2, p3);
+                            newFacet_j.setVertex(0, p1);
+                            newFacet_j.setVertex(1, p2);
+                            newFacet_j.setVertex(2, p3);
 
                             break;
 
                         case 1:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p1);
-                            newFacet_i.insertVertex(2, p3);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p1);
+                            newFacet_i.setVertex(2, p3);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p0);
-                            newFacet_j.insertVertex(1, p3);
-                            newFacet_j.insertVertex(2, p2);
+                            newFacet_j.setVertex(0, p0);
+                            newFacet_j.setVertex(1, p3);
+                            newFacet_j.setVertex(2, p2);
 
                             break;
 
                         case 2:
 
                             newFacet_i = m_stlFile.facet(aFacetId);
-                            newFacet_i.insertVertex(0, p0);
-                            newFacet_i.insertVertex(1, p1);
-                            newFacet_i.insertVertex(2, p3);
+                            newFacet_i.setVertex(0, p0);
+                            newFacet_i.setVertex(1, p1);
+                            newFacet_i.setVertex(2, p3);
 
                             newFacet_j = m_stlFile.facet(aNeighborId);
-                            newFacet_j.insertVertex(0, p1);
-                            newFacet_j.insertVertex(1, p2);
-                            newFacet_j.insertVertex(2, p3);
+                            newFacet_j.setVertex(0, p1);
+                            newFacet_j.setVertex(1, p2);
+                            newFacet_j.setVertex(2, p3);
 
                             break;
                         }
 
                         this->getFacetQuality(newFacet_i, sedg, bedg, dmin, dmax, qi);
 
-                        newFacet_i.calculateNormal();
+                        newFacet_i.calculateNormal(true);
                         CGeoNormal<Real> fNormal_i = newFacet_i.normal();
 
                         this->getFacetQuality(newFacet_j, sedg, bedg, dmin, dmax, qj);
 
-                        newFacet_j.calculateNormal();
+                        newFacet_j.calculateNormal(true);
                         CGeoNormal<Real> fNormal_j = newFacet_j.normal();
 
                         Real qminf = std::min(qi, qj);
 
-                        m_stlFile.facet(aFacetId).calculateArea();
-                        m_stlFile.facet(aNeighborId).calculateArea();
+                        m_stlFile.facet(aFacetId).calculateArea(true);
+                        m_stlFile.facet(aNeighborId).calculateArea(true);
 
-                        newFacet_i.calculateArea();
-                        newFacet_j.calculateArea();
+                        newFacet_i.calculateArea(true);
+                        newFacet_j.calculateArea(true);
 
                         Real areai = m_stlFile.facet(aFacetId).area() + m_stlFile.facet(aNeighborId).area();
                         Real areaf = newFacet_i.area() + newFacet_j.area();
-- 
2.43.0


From d9080de789026f887cc8c80a95f495185b76d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 101/120] fix: collapsing STL edges next to each other tore the
 surface

---
 trunk/src/stl/StlUtils_Imp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 3f42da6..1de831b 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1417,12 +1417,20 @@ namespace ENigMA
                         if (std::fabs(cang) > maxAngle)
                             fixedNode = true;
                     }
+
+                    // The neighbours of a facet that already changed are not known any more
+                    if (aFacet_i[k].extra[0] == 'c')
+                        fixedNode = true;
                 }
 
                 if (!fixedNode)
                 {
                     for (Integer k = 0; k < static_cast<Integer>(whichFacet.size()); ++k)
+                    {
                         m_stlFile.facet(whichFacet[k]).setVertex((whichVertex[k] + 1) % 3, aNewVertex);
+                        m_stlFile.facet(whichFacet[k]).calculateNormal(true);
+                        m_stlFile.facet(whichFacet[k]).extra[0] = 'c';
+                    }
 
                     m_stlFile.facet(aFacetId).extra[0] = 'c';
                     m_stlFile.facet(pair).extra[0] = 'c';
-- 
2.43.0


From 1c9bc993a1da9b69995763d3d6ba2f14b3a05055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 102/120] fix: statistics of an STL surface made from a mesh

---
 trunk/src/stl/StlUtils_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 1de831b..26494f2 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -79,6 +79,8 @@ namespace ENigMA
 
                 m_stlFile.addFacet(aFacetId, aFacet);
             }
+
+            this->calculateStatistics();
         }
 
         template <typename Real>
-- 
2.43.0


From 6b4d6883ce72aa98f478dacef2bcc4004dbdd012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 103/120] fix: small ASCII STL files are told apart by their
 size

---
 trunk/src/stl/StlUtils_Imp.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 26494f2..5431264 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -14,6 +14,7 @@
 #include <algorithm>
 #include <cctype>
 #include <cstdlib>
+#include <cstring>
 #include <fstream>
 #include <set>
 
@@ -103,10 +104,10 @@ namespace ENigMA
                 m_stlFile.stats.fileSize = fileSTL.tellg();
 
                 // Check for binary or ASCII file
-                fileSTL.seekg(HEADER_SIZE);
+                fileSTL.seekg(0);
 
                 // Small files end before this buffer is full
-                std::string chtest(256, ' ');
+                std::string chtest(HEADER_SIZE + 256, ' ');
                 fileSTL.read(&chtest[0], chtest.size());
                 chtest.resize(static_cast<size_t>(fileSTL.gcount()));
 
@@ -116,7 +117,18 @@ namespace ENigMA
                 {
                     m_stlFile.stats.type = FT_ASCII;
 
-                    if (chtest.find("vertex") == std::string::npos)
+                    // The title of a binary file may hold that word too, the text of a small ASCII file may end with the title
+                    bool bCounted = false;
+
+                    if (chtest.size() >= HEADER_SIZE)
+                    {
+                        int headerNumFacets;
+                        std::memcpy(&headerNumFacets, &chtest[LABEL_SIZE], sizeof(int));
+
+                        bCounted = headerNumFacets >= 0 && static_cast<long long>(headerNumFacets) * SIZEOF_STL_FACET + HEADER_SIZE == static_cast<long long>(m_stlFile.stats.fileSize);
+                    }
+
+                    if (chtest.find("vertex", bCounted ? HEADER_SIZE : 0) == std::string::npos)
                         m_stlFile.stats.type = FT_BINARY;
 
                     fileSTL.seekg(0);
-- 
2.43.0


From 5e592e3db6c8b4158a7f611684b5fae347fa6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 104/120] fix: collapsing an STL edge flattened facets beside
 it

---
 trunk/src/stl/StlUtils_Imp.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trunk/src/stl/StlUtils_Imp.hpp b/trunk/src/stl/StlUtils_Imp.hpp
index 5431264..82cef36 100644
--- a/trunk/src/stl/StlUtils_Imp.hpp
+++ b/trunk/src/stl/StlUtils_Imp.hpp
@@ -1421,8 +1421,17 @@ namespace ENigMA
 
                     aFacet_f[k].calculateArea(true);
 
-                    if (aFacet_f[k].area() > 0.0)
+                    // Only the two facets at the edge vanish
+                    if (whichFacet[k] != aFacetId && whichFacet[k] != pair)
                     {
+                        Integer sedg, bedg;
+                        Real q;
+
+                        this->getFacetQuality(aFacet_f[k], sedg, bedg, dmin, dmax, q);
+
+                        if (aFacet_f[k].area() <= std::sqrt(std::numeric_limits<Real>::epsilon()) * dmax * dmax)
+                            fixedNode = true;
+
                         aFacet_f[k].calculateNormal(true);
                         aFacet_i[k].calculateNormal(true);
 
-- 
2.43.0


From 37b5dd5d1c1db6f066e7f44c1716d96c7eee2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 105/120] fix: damaged Gmsh files are refused, points are read

---
 trunk/src/post/PosGmsh_Imp.hpp | 43 +++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index efc40b2..88c4126 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -11,6 +11,8 @@
 
 #include <fstream>
 #include <iomanip>
+#include <set>
+#include <string>
 
 namespace ENigMA
 {
@@ -60,22 +62,32 @@ namespace ENigMA
 
                 aField.mesh().reset();
 
+                std::set<Integer> nodeIds;
+
                 if (findSection(fileGmsh, "$Nodes"))
                 {
-                    Integer nbNodes;
+                    Integer nbNodes = 0;
 
                     fileGmsh >> nbNodes;
 
+                    if (!fileGmsh || nbNodes < 0)
+                        return false;
+
                     for (Integer i = 0; i < nbNodes; ++i)
                     {
                         Integer id;
                         Real x, y, z;
 
-                        fileGmsh >> id >> x >> y >> z;
+                        if (!(fileGmsh >> id >> x >> y >> z) || id < 1)
+                        {
+                            aField.mesh().reset();
+                            return false;
+                        }
 
                         ENigMA::mesh::CMshNode<Real> aNode(x, y, z);
 
                         aField.mesh().addNode(id - 1, aNode);
+                        nodeIds.insert(id - 1);
                     }
 
                     //findSection(fileGmsh, "$EndNodes");
@@ -83,19 +95,29 @@ namespace ENigMA
 
                 if (findSection(fileGmsh, "$Elements"))
                 {
-                    Integer nbElements;
+                    Integer nbElements = 0;
 
                     fileGmsh >> nbElements;
 
+                    if (!fileGmsh || nbElements < 0)
+                    {
+                        aField.mesh().reset();
+                        return false;
+                    }
+
                     for (Integer i = 0; i < nbElements; ++i)
                     {
                         Integer id, nType, nTags, nAux;
 
                         Integer nbNodeIds = 0;
 
-                        fileGmsh >> id >> nType >> nTags;
+                        if (!(fileGmsh >> id >> nType >> nTags) || id < 1)
+                        {
+                            aField.mesh().reset();
+                            return false;
+                        }
 
-                        if (nType < 1 || nType > 6)
+                        if ((nType < 1 || nType > 6) && nType != 15)
                         {
                             std::string line;
                             std::getline(fileGmsh, line);
@@ -103,7 +125,7 @@ namespace ENigMA
                         }
 
                         // TODO: Use tags
-                        for (Integer j = 0; j < nTags; ++j)
+                        for (Integer j = 0; j < nTags && fileGmsh; ++j)
                         {
                             fileGmsh >> nAux;
                         }
@@ -143,7 +165,7 @@ namespace ENigMA
                             nbNodeIds = 6;
                             break;
                         case 15:
-                            // line
+                            // node
                             anElement.setElementType(ENigMA::mesh::ET_NODE);
                             nbNodeIds = 1;
                             break;
@@ -153,7 +175,12 @@ namespace ENigMA
 
                         for (Integer j = 0; j < nbNodeIds; ++j)
                         {
-                            fileGmsh >> aNodeId;
+                            // The nodes of an element are among those of the file
+                            if (!(fileGmsh >> aNodeId) || aNodeId < 1 || nodeIds.find(aNodeId - 1) == nodeIds.end())
+                            {
+                                aField.mesh().reset();
+                                return false;
+                            }
 
                             anElement.addNodeId(aNodeId - 1);
                         }
-- 
2.43.0


From 173c7de5958db211916444440c5db120137cfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 106/120] fix: names of Gmsh views are quoted

---
 trunk/src/post/PosGmsh_Imp.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index 88c4126..45e4127 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -284,11 +284,7 @@ namespace ENigMA
                     {
                         fileGmsh << "$NodeData" << std::endl;
                         fileGmsh << "1" << std::endl;
-                        fileGmsh << ""
-                                    ""
-                                 << strViewName << ""
-                                                   ""
-                                 << std::endl;
+                        fileGmsh << "\"" << strViewName << "\"" << std::endl;
 
                         fileGmsh << "1" << std::endl;
                         fileGmsh << "0.0" << std::endl;
@@ -318,11 +314,7 @@ namespace ENigMA
                     {
                         fileGmsh << "$ElementData" << std::endl;
                         fileGmsh << "1" << std::endl;
-                        fileGmsh << ""
-                                    ""
-                                 << strViewName << ""
-                                                   ""
-                                 << std::endl;
+                        fileGmsh << "\"" << strViewName << "\"" << std::endl;
 
                         fileGmsh << "1" << std::endl;
                         fileGmsh << "0.0" << std::endl;
-- 
2.43.0


From c3f648b6b8b46e8a51550735196ff93ffdbd3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 107/120] fix: Gmsh results of meshes with any numbering

---
 trunk/src/post/PosGmsh_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index 45e4127..b183014 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -298,7 +298,7 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                         {
-                            Integer index = aField.mesh().nodeIndex(i);
+                            Integer index = aField.mesh().nodeIndex(aField.mesh().nodeId(i));
 
                             if (aField.nbDofs() == 1)
                                 fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
@@ -328,7 +328,7 @@ namespace ENigMA
 
                         for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                         {
-                            Integer index = aField.mesh().elementIndex(i);
+                            Integer index = aField.mesh().elementIndex(aField.mesh().elementId(i));
 
                             if (aField.nbDofs() == 1)
                                 fileGmsh << index + 1 << std::setprecision(16) << " " << aField.u(i) << std::endl;
-- 
2.43.0


From 79fdbc6374be71dcd2133b6224eee609297c9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 108/120] fix: gnuplot files of meshes with any numbering

---
 trunk/src/post/PosGnuplot_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/post/PosGnuplot_Imp.hpp b/trunk/src/post/PosGnuplot_Imp.hpp
index dc63a71..7922c22 100644
--- a/trunk/src/post/PosGnuplot_Imp.hpp
+++ b/trunk/src/post/PosGnuplot_Imp.hpp
@@ -41,7 +41,7 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
                     {
-                        Integer id = aField.mesh().nodeIndex(i);
+                        Integer id = aField.mesh().nodeId(i);
                         CMshNode<Real> aNode = aField.mesh().node(id);
 
                         fileGnuplot << id + 1 << std::setprecision(16)
@@ -56,7 +56,7 @@ namespace ENigMA
                 {
                     for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                     {
-                        Integer id = aField.mesh().elementIndex(i);
+                        Integer id = aField.mesh().elementId(i);
                         CGeoCoordinate<Real> aCentroid = aField.mesh().elementCentroid(id);
 
                         fileGnuplot << id + 1 << std::setprecision(16)
-- 
2.43.0


From 6d25fd8ac03931f9e6cab5a30738fc066e41af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 109/120] fix: gnuplot files of fields with several degrees of
 freedom

---
 trunk/src/post/PosGnuplot_Imp.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trunk/src/post/PosGnuplot_Imp.hpp b/trunk/src/post/PosGnuplot_Imp.hpp
index 7922c22..e66bb74 100644
--- a/trunk/src/post/PosGnuplot_Imp.hpp
+++ b/trunk/src/post/PosGnuplot_Imp.hpp
@@ -47,8 +47,12 @@ namespace ENigMA
                         fileGnuplot << id + 1 << std::setprecision(16)
                                     << " " << aNode.x()
                                     << " " << aNode.y()
-                                    << " " << aNode.z()
-                                    << " " << aField.u(i) << std::endl;
+                                    << " " << aNode.z();
+
+                        for (Integer j = 0; j < aField.nbDofs(); ++j)
+                            fileGnuplot << " " << aField.u(i * aField.nbDofs() + j);
+
+                        fileGnuplot << std::endl;
                     }
                 }
 
@@ -62,9 +66,12 @@ namespace ENigMA
                         fileGnuplot << id + 1 << std::setprecision(16)
                                     << " " << aCentroid.x()
                                     << " " << aCentroid.y()
-                                    << " " << aCentroid.z()
-                                    << " " << aField.u(i)
-                                    << std::endl;
+                                    << " " << aCentroid.z();
+
+                        for (Integer j = 0; j < aField.nbDofs(); ++j)
+                            fileGnuplot << " " << aField.u(i * aField.nbDofs() + j);
+
+                        fileGnuplot << std::endl;
                     }
                 }
 
-- 
2.43.0


From c4804a3a26e612aac5d8e15480c4c7f9d7682a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 110/120] fix: VTK files of quadrilaterals and nodes

---
 trunk/src/post/PosVtk_Imp.hpp | 96 ++++++-----------------------------
 1 file changed, 16 insertions(+), 80 deletions(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index 34afd96..cc7b1d4 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -72,97 +72,30 @@ namespace ENigMA
 
                 for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                 {
-                    Integer nElemSize = 0;
-
                     Integer id = aField.mesh().elementId(i);
 
-                    switch (aField.mesh().element(id).elementType())
-                    {
-                    case ET_BEAM:
-                        nElemSize = 2;
-                        break;
-                    case ET_TRIANGLE:
-                        nElemSize = 3;
-                        break;
-                    case ET_QUADRILATERAL:
-                        nElemSize = 4;
-                        break;
-                    case ET_TETRAHEDRON:
-                        nElemSize = 4;
-                        break;
-                    case ET_HEXAHEDRON:
-                        nElemSize = 8;
-                        break;
-                    case ET_TRIANGULAR_PRISM:
-                        nElemSize = 6;
-                        break;
-                    default:
-                        nElemSize = 0;
-                        break;
-                    }
-
-                    nSize += (nElemSize + 1);
+                    nSize += (aField.mesh().element(id).nbNodeIds() + 1);
                 }
 
                 fileVtk << "CELLS " << aField.mesh().nbElements() << " " << nSize << std::endl;
 
                 for (Integer i = 0; i < aField.mesh().nbElements(); ++i)
                 {
-                    Integer nElemSize = 0;
-
                     Integer id = aField.mesh().elementId(i);
 
-                    switch (aField.mesh().element(id).elementType())
+                    ENigMA::mesh::CMshElement<Real> anElement = aField.mesh().element(id);
+
+                    fileVtk << anElement.nbNodeIds();
+
+                    for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
                     {
-                    case ET_BEAM:
-                        nElemSize = 2;
-                        fileVtk << nElemSize;
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
-                        break;
-                    case ET_TRIANGLE:
-                        nElemSize = 3;
-                        fileVtk << nElemSize;
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
-                        break;
-                    case ET_QUADRILATERAL:
-                        nElemSize = 4;
-                        break;
-                    case ET_TETRAHEDRON:
-                        nElemSize = 4;
-                        fileVtk << nElemSize;
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(3));
-                        break;
-                    case ET_HEXAHEDRON:
-                        nElemSize = 8;
-                        fileVtk << nElemSize;
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(3));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(4));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(5));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(6));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(7));
-                        break;
-                    case ET_TRIANGULAR_PRISM:
-                        nElemSize = 6;
-                        fileVtk << nElemSize;
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(0));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(1));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(2));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(3));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(4));
-                        fileVtk << " " << aField.mesh().nodeIndex(aField.mesh().element(id).nodeId(5));
-                        break;
-                    default:
-                        nElemSize = 0;
-                        break;
+                        Integer k = j;
+
+                        // The last vertex of a tetrahedron lies on the other side of the first three
+                        if (anElement.elementType() == ET_TETRAHEDRON && (j == 1 || j == 2))
+                            k = 3 - j;
+
+                        fileVtk << " " << aField.mesh().nodeIndex(anElement.nodeId(k));
                     }
 
                     fileVtk << std::endl;
@@ -178,6 +111,9 @@ namespace ENigMA
 
                     switch (aField.mesh().element(id).elementType())
                     {
+                    case ET_NODE:
+                        nElemType = 1;
+                        break;
                     case ET_BEAM:
                         nElemType = 3;
                         break;
-- 
2.43.0


From e1e5bc5593ffaabfddfbeba921d7e1caa3782355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 111/120] fix: VTK files rounded the first coordinate

---
 trunk/src/post/PosVtk_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index cc7b1d4..b58ef9f 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -65,7 +65,7 @@ namespace ENigMA
                 {
                     Integer id = aField.mesh().nodeId(i);
 
-                    fileVtk << aField.mesh().node(id).x() << std::setprecision(16) << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
+                    fileVtk << std::setprecision(16) << aField.mesh().node(id).x() << " " << aField.mesh().node(id).y() << " " << aField.mesh().node(id).z() << std::endl;
                 }
 
                 Integer nSize = 0;
-- 
2.43.0


From 2c7dcd6f83fe35c540821a05eb072b881af4b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 112/120] fix: VTK files hold the values of elements and of
 several degrees of freedom

---
 trunk/src/post/PosVtk.hpp     |  5 +++++
 trunk/src/post/PosVtk_Imp.hpp | 31 +++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/trunk/src/post/PosVtk.hpp b/trunk/src/post/PosVtk.hpp
index d58c563..92ec129 100644
--- a/trunk/src/post/PosVtk.hpp
+++ b/trunk/src/post/PosVtk.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <fstream>
+
 #include "PdeField.hpp"
 
 using namespace ENigMA::pde;
@@ -20,6 +22,9 @@ namespace ENigMA
         template <typename Real>
         class CPosVtk
         {
+        private:
+            void saveValues(std::ofstream& fileVtk, CPdeField<Real>& aField, const Integer nbValues);
+
         public:
             CPosVtk();
             virtual ~CPosVtk();
diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index b58ef9f..ee64cbe 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -45,6 +45,21 @@ namespace ENigMA
             return true;
         }
 
+        template <typename Real>
+        void CPosVtk<Real>::saveValues(std::ofstream& fileVtk, CPdeField<Real>& aField, const Integer nbValues)
+        {
+            fileVtk << "SCALARS fixed float " << aField.nbDofs() << std::endl;
+            fileVtk << "LOOKUP_TABLE default" << std::endl;
+
+            for (Integer i = 0; i < nbValues; ++i)
+            {
+                for (Integer j = 0; j < aField.nbDofs(); ++j)
+                    fileVtk << (j > 0 ? " " : "") << aField.u(i * aField.nbDofs() + j);
+
+                fileVtk << std::endl;
+            }
+        }
+
         template <typename Real>
         bool CPosVtk<Real>::save(CPdeField<Real>& aField, const std::string& strFileName)
         {
@@ -145,16 +160,12 @@ namespace ENigMA
                     if (aField.discretLocation() == DL_NODE)
                     {
                         fileVtk << "POINT_DATA " << aField.mesh().nbNodes() << std::endl;
-                        fileVtk << "SCALARS fixed float" << std::endl;
-                        fileVtk << "LOOKUP_TABLE default" << std::endl;
-
-                        for (Integer i = 0; i < aField.mesh().nbNodes(); ++i)
-                        {
-                            Integer index = aField.mesh().nodeIndex(i);
-
-                            if (aField.nbDofs() == 1)
-                                fileVtk << aField.u(i) << std::endl;
-                        }
+                        saveValues(fileVtk, aField, aField.mesh().nbNodes());
+                    }
+                    else if (aField.discretLocation() == DL_ELEMENT_CENTER)
+                    {
+                        fileVtk << "CELL_DATA " << aField.mesh().nbElements() << std::endl;
+                        saveValues(fileVtk, aField, aField.mesh().nbElements());
                     }
                 }
 
-- 
2.43.0


From 3d8212f90d2bab9f9579ac34ca875418d4169cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 113/120] fix: reading QuickMesh files did not compile

---
 trunk/src/post/PosQuickMesh_Imp.hpp | 38 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/trunk/src/post/PosQuickMesh_Imp.hpp b/trunk/src/post/PosQuickMesh_Imp.hpp
index 283c28f..dbe0efb 100644
--- a/trunk/src/post/PosQuickMesh_Imp.hpp
+++ b/trunk/src/post/PosQuickMesh_Imp.hpp
@@ -10,6 +10,10 @@
 #pragma once
 
 #include <fstream>
+#include <iomanip>
+#include <set>
+#include <sstream>
+#include <string>
 
 namespace ENigMA
 {
@@ -34,39 +38,47 @@ namespace ENigMA
 
             if (fileQuickMesh.is_open())
             {
+                std::set<Integer> nodeIds;
+
                 while (!fileQuickMesh.eof() && !fileQuickMesh.fail())
                 {
                     std::string line;
 
                     std::getline(fileQuickMesh, line);
 
-                    if (line.find("C") != std::string::npos)
+                    std::istringstream lineStream(line);
+
+                    std::string desc;
+                    lineStream >> desc;
+
+                    if (desc == "C")
                     {
-                        std::string desc;
                         Integer id;
                         Real x, y, z;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %f %f %f", &desc[0], &id, &x, &y, &z);
+                        if (!(lineStream >> id >> x >> y >> z) || id < 1)
+                            return false;
 
-                        CMshNode<Real> aNode(x, y, z);
+                        ENigMA::mesh::CMshNode<Real> aNode(x, y, z);
 
                         aField.mesh().addNode(id - 1, aNode);
+                        nodeIds.insert(id);
                     }
-                    else if (line.find("t") != std::string::npos)
+                    else if (desc == "t")
                     {
-                        std::string desc;
                         Integer id;
                         Integer n1, n2, n3, n4;
-                        Integer p1, p2, p3, p4;
-                        Real v;
 
-                        desc.reserve(50);
-                        std::sscanf(line, "%25s %d %d %d %d %d %d %d %d %d %f", &desc[0], &id, &n1, &n2, &n3, &n4, &p1, &p2, &p3, &p4, &v);
+                        if (!(lineStream >> id >> n1 >> n2 >> n3 >> n4) || id < 1)
+                            return false;
+
+                        // The nodes of an element are among those of the file
+                        if (nodeIds.count(n1) == 0 || nodeIds.count(n2) == 0 || nodeIds.count(n3) == 0 || nodeIds.count(n4) == 0)
+                            return false;
 
-                        CMshElement<Real> anElement;
+                        ENigMA::mesh::CMshElement<Real> anElement;
 
-                        anElement.setElementType(ET_TETRAHEDRON);
+                        anElement.setElementType(ENigMA::mesh::ET_TETRAHEDRON);
 
                         anElement.addNodeId(n1 - 1);
                         anElement.addNodeId(n2 - 1);
-- 
2.43.0


From 78dc5155f1155eddc7b01d86c7ff8643b561263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 114/120] fix: saving meshes and results reports when it could
 not be written

---
 trunk/src/post/PosGmsh_Imp.hpp      | 4 ++--
 trunk/src/post/PosGnuplot_Imp.hpp   | 4 ++--
 trunk/src/post/PosQuickMesh_Imp.hpp | 4 ++--
 trunk/src/post/PosVtk_Imp.hpp       | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/trunk/src/post/PosGmsh_Imp.hpp b/trunk/src/post/PosGmsh_Imp.hpp
index b183014..58824df 100644
--- a/trunk/src/post/PosGmsh_Imp.hpp
+++ b/trunk/src/post/PosGmsh_Imp.hpp
@@ -343,11 +343,11 @@ namespace ENigMA
                 }
 
                 fileGmsh.close();
+
+                return !fileGmsh.fail();
             }
             else
                 return false;
-
-            return true;
         }
     }
 }
diff --git a/trunk/src/post/PosGnuplot_Imp.hpp b/trunk/src/post/PosGnuplot_Imp.hpp
index e66bb74..bdddedf 100644
--- a/trunk/src/post/PosGnuplot_Imp.hpp
+++ b/trunk/src/post/PosGnuplot_Imp.hpp
@@ -76,11 +76,11 @@ namespace ENigMA
                 }
 
                 fileGnuplot.close();
+
+                return !fileGnuplot.fail();
             }
             else
                 return false;
-
-            return true;
         }
     }
 }
diff --git a/trunk/src/post/PosQuickMesh_Imp.hpp b/trunk/src/post/PosQuickMesh_Imp.hpp
index dbe0efb..a7a089d 100644
--- a/trunk/src/post/PosQuickMesh_Imp.hpp
+++ b/trunk/src/post/PosQuickMesh_Imp.hpp
@@ -134,11 +134,11 @@ namespace ENigMA
                 }
 
                 fileQuickMesh.close();
+
+                return !fileQuickMesh.fail();
             }
             else
                 return false;
-
-            return true;
         }
     }
 }
diff --git a/trunk/src/post/PosVtk_Imp.hpp b/trunk/src/post/PosVtk_Imp.hpp
index ee64cbe..251f564 100644
--- a/trunk/src/post/PosVtk_Imp.hpp
+++ b/trunk/src/post/PosVtk_Imp.hpp
@@ -170,11 +170,11 @@ namespace ENigMA
                 }
 
                 fileVtk.close();
+
+                return !fileVtk.fail();
             }
             else
                 return false;
-
-            return true;
         }
     }
 }
-- 
2.43.0


From 14c78bb5b5e3408ce3ab4f42367ca97008001e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 115/120] fix: edge to face flips took the wrong nodes and
 elements flipped before

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 41 +++++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 06282dd..534df58 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1740,11 +1740,6 @@ namespace ENigMA
                 if (sFlipped.at(anElementId))
                     continue;
 
-                Integer aNodeId1 = anElement.nodeId(0);
-                Integer aNodeId2 = anElement.nodeId(1);
-                Integer aNodeId3 = anElement.nodeId(2);
-                Integer aNodeId4 = anElement.nodeId(3);
-
                 for (Integer j = 0; j < anElement.nbFaceIds(); ++j)
                 {
                     if (sFlipped.at(anElementId))
@@ -1771,17 +1766,49 @@ namespace ENigMA
 
                         if (sElementIds.size() == 3)
                         {
+                            // Turn the element, keeping its orientation, until the shared edge is the one between its last two nodes
+                            static const Integer anOrder[6][4] = { { 0, 1, 2, 3 }, { 0, 2, 3, 1 }, { 0, 3, 1, 2 }, { 1, 2, 0, 3 }, { 1, 3, 2, 0 }, { 2, 3, 0, 1 } };
+
+                            Integer aNodeId1 = anElement.nodeId(0);
+                            Integer aNodeId2 = anElement.nodeId(1);
+                            Integer aNodeId3 = anElement.nodeId(2);
+                            Integer aNodeId4 = anElement.nodeId(3);
+
+                            for (Integer l = 0; l < 6; ++l)
+                            {
+                                aNodeId1 = anElement.nodeId(anOrder[l][0]);
+                                aNodeId2 = anElement.nodeId(anOrder[l][1]);
+                                aNodeId3 = anElement.nodeId(anOrder[l][2]);
+                                aNodeId4 = anElement.nodeId(anOrder[l][3]);
+
+                                if (aNodeId1 != aFace.nodeId((k + 0) % 3) && aNodeId1 != aFace.nodeId((k + 1) % 3) && aNodeId2 != aFace.nodeId((k + 0) % 3) && aNodeId2 != aFace.nodeId((k + 1) % 3))
+                                    break;
+                            }
+
                             Integer aNodeId5;
 
                             bool bNodeFound = false;
+                            bool bCanFlip = true;
 
                             for (Integer l = 0; l < static_cast<Integer>(sElementIds.size()); l++)
                             {
                                 Integer anOtherElementId = sElementIds[l];
                                 CMshElement<Real>& anOtherElement = aMesh.element(anOtherElementId);
 
-                                if (anOtherElement.elementType() != ET_TETRAHEDRON)
-                                    continue;
+                                if (anOtherElement.elementType() != ET_TETRAHEDRON || sFlipped.at(anOtherElementId))
+                                {
+                                    bCanFlip = false;
+                                    break;
+                                }
+                            }
+
+                            if (!bCanFlip)
+                                continue;
+
+                            for (Integer l = 0; l < static_cast<Integer>(sElementIds.size()); l++)
+                            {
+                                Integer anOtherElementId = sElementIds[l];
+                                CMshElement<Real>& anOtherElement = aMesh.element(anOtherElementId);
 
                                 for (Integer m = 0; m < anOtherElement.nbNodeIds(); m++)
                                 {
-- 
2.43.0


From 1710f1d835c41c050de8d854d7a8b1d920be483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 116/120] fix: inner nodes of the tetrahedral mesher were lost
 by repairs and kept between runs

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 534df58..4b0bfef 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <set>
+
 #include "GeoNormal.hpp"
 #include "GeoSphere.hpp"
 #include "MshMeshQuery.hpp"
@@ -528,6 +530,7 @@ namespace ENigMA
             // Add boundary nodes to volume mesh
             m_volumeMesh.reset();
             m_boundingBox.reset();
+            m_innerNodes.clear();
 
             for (Integer i = 0; i < aSurfaceMesh.nbNodes(); ++i)
             {
@@ -1319,6 +1322,20 @@ namespace ENigMA
             for (Integer i = 0; i < static_cast<Integer>(sElementsToRemove.size()); ++i)
                 m_volumeMesh.removeElement(sElementsToRemove[i]);
 
+            // Inner nodes which lost all their elements are available again
+            std::set<Integer> sUsedNodeIds;
+
+            for (Integer i = 0; i < m_volumeMesh.nbElements(); ++i)
+            {
+                CMshElement<Real>& anElement = m_volumeMesh.element(m_volumeMesh.elementId(i));
+
+                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                    sUsedNodeIds.insert(anElement.nodeId(j));
+            }
+
+            for (Integer i = 0; i < static_cast<Integer>(m_innerNodes.size()); ++i)
+                m_innerNodes[i].remove = sUsedNodeIds.find(m_innerNodes[i].nodeId) != sUsedNodeIds.end();
+
             return true;
         }
 
-- 
2.43.0


From ddd68b6a4862522a6e1858a27bb0eab17a019705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 117/120] fix: relaxing nodes of tetrahedra took a wrong
 centroid

---
 trunk/src/mesh/MshTetrahedronMesher_Imp.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
index 4b0bfef..5d082c8 100644
--- a/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
+++ b/trunk/src/mesh/MshTetrahedronMesher_Imp.hpp
@@ -1427,13 +1427,17 @@ namespace ENigMA
 
                     aTetrahedron.calculateVolume();
 
-                    aNewNode += aNode1;
-                    aNewNode += aNode2;
-                    aNewNode += aNode3;
-                    aNewNode += aNode4;
-                    aNewNode /= 4.0;
+                    CMshNode<Real> aCentroid(0.0, 0.0, 0.0);
 
-                    aNewNode *= aTetrahedron.volume();
+                    aCentroid += aNode1;
+                    aCentroid += aNode2;
+                    aCentroid += aNode3;
+                    aCentroid += aNode4;
+                    aCentroid /= 4.0;
+
+                    aCentroid *= aTetrahedron.volume();
+
+                    aNewNode += aCentroid;
 
                     aTotalVolume += aTetrahedron.volume();
                 }
-- 
2.43.0


From 429c4a56af866dd61d7622e6b4e9e2f4ed1d7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 118/120] fix: relaxing nodes of quadrilaterals checked only
 three of their corners

---
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 65 +++++++------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index 072c9f2..c3413ca 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -1209,7 +1209,7 @@ namespace ENigMA
                         {
                             if (aNextElement.faceId(k) == aNextPairFaceId)
                             {
-                                aNextFaceId = aNextElement.faceId((k + 1) % 3);
+                                aNextFaceId = aNextElement.faceId((k + 1) % aNextElement.nbFaceIds());
                                 break;
                             }
                         }
@@ -1241,56 +1241,41 @@ namespace ENigMA
                         {
                             CMshElement<Real>& aModElement = aMesh.element(sElements[k]);
 
-                            Integer aNodeId1 = aModElement.nodeId(0);
-                            Integer aNodeId2 = aModElement.nodeId(1);
-                            Integer aNodeId3 = aModElement.nodeId(2);
+                            const Integer nbCorners = aModElement.nbNodeIds();
 
-                            CMshNode<Real>& aNode1 = aMesh.node(aNodeId1);
-                            CMshNode<Real>& aNode2 = aMesh.node(aNodeId2);
-                            CMshNode<Real>& aNode3 = aMesh.node(aNodeId3);
-
-                            CGeoCoordinate<Real> aVertex1 = aNode1;
-                            CGeoCoordinate<Real> aVertex2 = aNode2;
-                            CGeoCoordinate<Real> aVertex3 = aNode3;
-
-                            CMshTriangle<Real> aTriangle1;
-
-                            aTriangle1.addVertex(aVertex1);
-                            aTriangle1.addVertex(aVertex2);
-                            aTriangle1.addVertex(aVertex3);
-
-                            aTriangle1.calculateQuality();
-
-                            Real q1 = aTriangle1.quality();
+                            // A quadrilateral must remain convex: check the triangles at all its corners
+                            for (Integer l = 0; l < (nbCorners == 3 ? 1 : nbCorners) && bMoveNode; ++l)
+                            {
+                                CMshTriangle<Real> aTriangle1;
+                                CMshTriangle<Real> aTriangle2;
 
-                            if (aNodeId1 == aPivotNodeId)
-                                aVertex1 = aMshNode;
+                                for (Integer m = 0; m < 3; ++m)
+                                {
+                                    Integer aNodeId = aModElement.nodeId((l + m) % nbCorners);
 
-                            if (aNodeId2 == aPivotNodeId)
-                                aVertex2 = aMshNode;
+                                    CGeoCoordinate<Real> aVertex = aMesh.node(aNodeId);
+                                    aTriangle1.addVertex(aVertex);
 
-                            if (aNodeId3 == aPivotNodeId)
-                                aVertex3 = aMshNode;
+                                    if (aNodeId == aPivotNodeId)
+                                        aVertex = aMshNode;
 
-                            CMshTriangle<Real> aTriangle2;
+                                    aTriangle2.addVertex(aVertex);
+                                }
 
-                            aTriangle2.addVertex(aVertex1);
-                            aTriangle2.addVertex(aVertex2);
-                            aTriangle2.addVertex(aVertex3);
+                                aTriangle1.calculateQuality();
 
-                            aTriangle2.calculateArea();
-                            aTriangle2.calculateQuality();
+                                aTriangle2.calculateArea();
+                                aTriangle2.calculateQuality();
 
-                            Real q2 = aTriangle2.quality();
+                                sumq1 += aTriangle1.quality();
+                                sumq2 += aTriangle2.quality();
 
-                            sumq1 += q1;
-                            sumq2 += q2;
+                                if (aTriangle2.normal().z() < aTolerance)
+                                    bMoveNode = false;
+                            }
 
-                            if (aTriangle2.normal().z() < aTolerance)
-                            {
-                                bMoveNode = false;
+                            if (!bMoveNode)
                                 break;
-                            }
                         }
 
                         if (bMoveNode && sumq2 > sumq1)
-- 
2.43.0


From af93a717e664e97ef31fdb3c59beac99c5e23a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 119/120] fix: quadrilaterals which cross themselves were
 accepted by the mesher

---
 trunk/src/mesh/MshQuadrilateralMesher.hpp     |  1 +
 trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/trunk/src/mesh/MshQuadrilateralMesher.hpp b/trunk/src/mesh/MshQuadrilateralMesher.hpp
index 07d9f7b..c948dbd 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher.hpp
@@ -30,6 +30,7 @@ namespace ENigMA
             void cleanDuplicateEdges(std::vector<Integer>& sEdges, const Real aTolerance = 0.0) override;
 
             inline bool quadrilateralContainsNode(CMshNode<Real>& aNode1, CMshNode<Real>& aNode2, CMshNode<Real>& aNode3, CMshNode<Real>& aNode4, Integer& aNodeId, std::vector<Integer>& sNodes, const Real aTolerance = 0.0);
+            bool quadrilateralIsSimple(const CMshNode<Real>& aNode1, const CMshNode<Real>& aNode2, const CMshNode<Real>& aNode3, const CMshNode<Real>& aNode4);
             bool frontHasEdge(const Integer aNodeId1, const Integer aNodeId2, const std::vector<Integer>& sEdges);
             void addQuadrilateral(SMshAdvancingFrontEdge<Real>& anAdvEdge, const Integer aNodeId3, const Integer aNodeId4, std::vector<Integer>& sEdges, const Real aTolerance);
 
diff --git a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
index c3413ca..ccaa269 100644
--- a/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
+++ b/trunk/src/mesh/MshQuadrilateralMesher_Imp.hpp
@@ -96,6 +96,18 @@ namespace ENigMA
             return false;
         }
 
+        template <typename Real>
+        bool CMshQuadrilateralMesher<Real>::quadrilateralIsSimple(const CMshNode<Real>& aNode1, const CMshNode<Real>& aNode2, const CMshNode<Real>& aNode3, const CMshNode<Real>& aNode4)
+        {
+            // One of the diagonals has to cut it into two triangles of positive area
+            const Real z1 = (aNode2 - aNode1).cross(aNode3 - aNode1).z();
+            const Real z2 = (aNode3 - aNode1).cross(aNode4 - aNode1).z();
+            const Real z3 = (aNode3 - aNode2).cross(aNode4 - aNode2).z();
+            const Real z4 = (aNode4 - aNode2).cross(aNode1 - aNode2).z();
+
+            return std::min(z1, z2) > 0.0 || std::min(z3, z4) > 0.0;
+        }
+
         template <typename Real>
         bool CMshQuadrilateralMesher<Real>::frontHasEdge(const Integer aNodeId1, const Integer aNodeId2, const std::vector<Integer>& sEdges)
         {
@@ -799,6 +811,9 @@ namespace ENigMA
                     if (this->frontHasEdge(aNodeId1, aNewNodeId1, sEdges) || this->frontHasEdge(aNewNodeId1, aNewNodeId2, sEdges) || this->frontHasEdge(aNewNodeId2, aNodeId2, sEdges))
                         q3 -= 2.0;
 
+                    if (aNewNodeId1 != aNewNodeId2 && !this->quadrilateralIsSimple(aNode1, aNode2, aNewNode2, aNewNode1))
+                        q3 -= 2.0;
+
                     if (q3 > q3max)
                     {
                         Integer wNodeId;
@@ -879,6 +894,9 @@ namespace ENigMA
                         if (this->frontHasEdge(aNodeId1, aNewNodeId1, sEdges) || this->frontHasEdge(aNewNodeId1, aNewNodeId2, sEdges) || this->frontHasEdge(aNewNodeId2, aNodeId2, sEdges))
                             q4 -= 2.0;
 
+                        if (!this->quadrilateralIsSimple(aNode1, aNode2, aNewNode2, aNewNode1))
+                            q4 -= 2.0;
+
                         if (q4 > 1.5 * minQuality)
                         {
                             Integer wNodeId;
-- 
2.43.0


From c939a3d8e529085d67c41b6381a14a4d8f00dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 120/120] fix: sources set after the elimination went to the
 wrong rows

---
 trunk/src/pde/PdeEquation_Imp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trunk/src/pde/PdeEquation_Imp.hpp b/trunk/src/pde/PdeEquation_Imp.hpp
index fbce01c..0a91a26 100644
--- a/trunk/src/pde/PdeEquation_Imp.hpp
+++ b/trunk/src/pde/PdeEquation_Imp.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "bem/BemOperators.hpp"
 #include "fdm/FdmOperators.hpp"
 #include "fem/FemOperators.hpp"
@@ -129,6 +131,15 @@ namespace ENigMA
                 Integer anIndex = itr->first;
                 Real aValue = itr->second;
 
+                if (m_eliminationMethod)
+                {
+                    // Rows of fixed values are not part of the system anymore
+                    if (m_bDeleteIndex[anIndex])
+                        continue;
+
+                    anIndex -= static_cast<Integer>(std::count(m_bDeleteIndex.begin(), m_bDeleteIndex.begin() + anIndex, true));
+                }
+
                 m_system.vectorB(anIndex) += aValue;
             }
         }
-- 
2.43.0

