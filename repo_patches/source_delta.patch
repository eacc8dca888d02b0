From 7f4ae18fbb889962dc2934e06a40d502b540f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:05 +0000
Subject: [PATCH 001/119] fix: register the undo action of mesh2d snapping to
 land boundaries with its mesh kernel id

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..72b7743 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From b25d08dcc386b5dde5d82e928da106a3837675e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 002/119] fix: undo of a mesh2d projection conversion restores
 the projection of the state

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 72b7743..25dc1f2 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,13 +1093,21 @@ namespace meshkernelapi
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    // The state undo action restores the projection of the state
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    // The state undo action restores the projection of the state
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else
-- 
2.43.0


From aaf69a452c7850375e7a544864f040b0b0706751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 003/119] fix: undo of node and edge deletion and merging
 restores the nodes left without edges

---
 libs/MeshKernel/src/Mesh.cpp          |  4 ++--
 libs/MeshKernel/src/Mesh2D.cpp        |  3 +++
 libs/MeshKernelApi/src/MeshKernel.cpp | 24 ++++++++++++++++++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..0d1fd12 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -434,7 +434,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
     filteredNodes.resize(filteredNodeCount);
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
 
     // Update the R-Tree of the mesh nodes
     const auto nodesRtree = RTreeFactory::Create(m_projection);
@@ -461,7 +461,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..8afa92b 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1876,6 +1876,9 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteHangingEdges()
         deleteAction->Add(DeleteEdge(hangingEdge));
     }
 
+    // Nodes left without edges are invalidated, this has to be part of the undo action
+    Administrate(deleteAction.get());
+
     return deleteAction;
 }
 
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 25dc1f2..4649d68 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2099,7 +2099,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode));
+            // Nodes left without edges are invalidated, this has to be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2307,7 +2311,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex));
+            // Nodes left without edges are invalidated, this has to be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2358,7 +2366,11 @@ namespace meshkernelapi
             meshkernel::BoundingBox boundingBox{{xLowerLeftBoundingBox, yLowerLeftBoundingBox}, {xUpperRightBoundingBox, yUpperRightBoundingBox}};
 
             const auto edgeIndex = meshKernelState[meshKernelId].m_mesh2d->FindLocationIndex(point, meshkernel::Location::Edges, {}, boundingBox);
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex));
+            // Nodes left without edges are invalidated, this has to be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -2377,7 +2389,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex), meshKernelId);
+            auto undoAction = meshkernel::CompoundUndoAction::Create();
+            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteEdge(edgeIndex));
+            // Nodes left without edges are invalidated, this has to be part of the undo action
+            meshKernelState[meshKernelId].m_mesh2d->Administrate(undoAction.get());
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From f6643325e62424e8fd394c5576d62b230091ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 004/119] fix: skip deleted edges when computing the minimum
 edge length

---
 libs/MeshKernel/src/Mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0d1fd12..69286c0 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -576,6 +576,12 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     for (UInt e = 0; e < numEdges; e++)
     {
         const auto& [firstNode, secondNode] = m_edges[e];
+
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
             result = std::min(result, m_edgeLengths[e]);
-- 
2.43.0


From b4be73cf8e547a6157f66e9a117083aefdb5e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:44 +0000
Subject: [PATCH 005/119] fix: merging two nodes with many edges does not
 overrun the edge list

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 69286c0..89fc99b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -353,7 +353,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
+    std::vector<UInt> secondNodeEdges(m_nodesNumEdges[firstNodeIndex] + m_nodesNumEdges[secondNodeIndex], constants::missing::uintValue);
     UInt numSecondNodeEdges = 0;
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
-- 
2.43.0


From 76d152f7aed903b74b220d71faf20c1bf4324d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:05 +0000
Subject: [PATCH 006/119] fix: reject out of range indices when deleting an
 edge or connecting nodes

---
 libs/MeshKernel/src/Mesh.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 89fc99b..4b91dcd 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -481,6 +481,11 @@ std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddNodeAction>> Mesh::I
 
 std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddEdgeAction>> Mesh::ConnectNodes(UInt startNode, UInt endNode)
 {
+    if (startNode >= GetNumNodes() || endNode >= GetNumNodes())
+    {
+        throw ConstraintError("Mesh::ConnectNodes: Node index out of range: first {}, second {}", startNode, endNode);
+    }
+
     if (FindEdge(startNode, endNode) != constants::missing::uintValue)
     {
         return {constants::missing::uintValue, nullptr};
@@ -519,7 +524,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
@@ -626,6 +631,12 @@ meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
 
+    if (firstNodeIndex >= m_nodesNumEdges.size())
+    {
+        // No edges are connected to the node
+        return constants::missing::uintValue;
+    }
+
     for (UInt n = 0; n < m_nodesNumEdges[firstNodeIndex]; n++)
     {
         const auto edgeIndex = m_nodesEdges[firstNodeIndex][n];
-- 
2.43.0


From 778ce677fdb97baf504acac43ff26be2840f47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:01 +0000
Subject: [PATCH 007/119] fix: intersecting a polyline with an edge that has no
 faces terminates

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..fcb52cf 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // The seed may be an edge without faces, it should not be selected again
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From ecf651403cc885fdc142d6b1882da9640050e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:56 +0000
Subject: [PATCH 008/119] fix: skip deleted edges when interpolating gridded
 samples

---
 .../MeshKernel/BilinearInterpolationOnGriddedSamples.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..b7f4c7d 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -161,6 +161,12 @@ namespace meshkernel
         for (UInt e = 0; e < numEdges; ++e)
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
+
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
         }
 
-- 
2.43.0


From a6ac7de495b3a1e9087ac33fe3702de2dba71917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:56 +0000
Subject: [PATCH 009/119] fix: splitting a row that starts at an edge next to a
 non-quadrilateral

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 16353ef..faf3ba6 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -285,7 +285,8 @@ void meshkernel::SplitRowColumnOfMesh::CollectElementsOneSideOfEdge(const Mesh2D
         firstIteration = false;
     }
 
-    if (IsValid(currentEdgeId))
+    // Here too, ensure the seed edge is added only once to the sequence of edges
+    if (IsValid(currentEdgeId) && (whichSide == 0 || !firstIteration))
     {
         partialEdgeIds.push_back(currentEdgeId);
     }
-- 
2.43.0


From 299c4aacf08dc78bfd2a7b0ed12ca4da7bc1052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:46 +0000
Subject: [PATCH 010/119] fix: Casulli de-refinement of a mesh without faces

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..fcb087b 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -46,6 +46,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
 
+    if (mesh.GetNumFaces() == 0)
+    {
+        // There is nothing to de-refine
+        return refinementAction;
+    }
+
     if (DoDeRefinement(mesh, polygon))
     {
         mesh.DeleteInvalidNodesAndEdges();
-- 
2.43.0


From 77a64b637ff795c370135bc409a8032e5731ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:59 +0000
Subject: [PATCH 011/119] fix: Casulli de-refinement does not write past the
 edges of a face without the common edge

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index fcb087b..4b9fd87 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -617,7 +617,11 @@ bool meshkernel::CasulliDeRefinement::UpdateDirectlyConnectedTriangleElements(Me
 
         if (otherEdgeId != constants::missing::uintValue)
         {
-            mesh.m_facesEdges[leftElementId][j] = otherEdgeId;
+            // The common edge may not have been found
+            if (j < mesh.m_facesEdges[leftElementId].size())
+            {
+                mesh.m_facesEdges[leftElementId][j] = otherEdgeId;
+            }
 
             if (!CleanUpEdge(mesh, edgeId))
             {
-- 
2.43.0


From 37736f5507e10aa05be6e796c358256ef1dedca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:29 +0000
Subject: [PATCH 012/119] fix: the node, edge and face search trees follow
 every change of the mesh and of the bounding box

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp   |  8 +++
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 24 ++++++--
 libs/MeshKernel/src/Mesh.cpp                  | 58 ++++++++++---------
 3 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..86c4ec3 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -463,6 +463,14 @@ namespace meshkernel
         /// @param[in] value The value of the flag
         void SetFacesRTreeRequiresUpdate(bool value) { m_facesRTreeRequiresUpdate = value; }
 
+        /// @brief Require an update of the node, edge and face search trees
+        void SetAllRTreesRequireUpdate()
+        {
+            m_nodesRTreeRequiresUpdate = true;
+            m_edgesRTreeRequiresUpdate = true;
+            m_facesRTreeRequiresUpdate = true;
+        }
+
         // nodes
         std::vector<std::vector<UInt>> m_nodesEdges; ///< For each node, the indices of connected edges (nod%lin)
         std::vector<UInt> m_nodesNumEdges;           ///< For each node, the number of connected edges (nmk)
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..0561908 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -250,34 +250,40 @@ void CurvilinearGrid::Delete(std::shared_ptr<Polygons> polygons, UInt polygonInd
 
 void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The cached bounding box is shared by all the trees
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
@@ -1146,6 +1152,7 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
     // The node and edge trees need to be rebuilt
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
 
     // Since the size of the grid has changed the node-vector needs to be reset
@@ -1158,6 +1165,7 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1167,6 +1175,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1175,6 +1184,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1183,6 +1193,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAct
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1192,6 +1203,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoActi
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4b91dcd..2069dfc 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -400,8 +400,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     // Set the node to be invalid
     undoAction->Add(ResetNode(firstNodeIndex, {constants::missing::doubleValue, constants::missing::doubleValue}));
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -520,6 +519,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    SetAllRTreesRequireUpdate();
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -767,8 +767,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         m_nodes[movedNodeIndex[i]] += nodeDisplacement[i];
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
     return undoAction;
 }
 
@@ -1020,8 +1019,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
         m_edges[e].second = rhs.m_edges[index].second + numNodes;
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 
     Administrate();
 
@@ -1168,32 +1166,36 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The cached bounding box is shared by all the trees
+        SetAllRTreesRequireUpdate();
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
@@ -1208,53 +1210,55 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    SetAllRTreesRequireUpdate();
     Administrate();
 }
 
@@ -1262,52 +1266,54 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
-    m_nodesRTreeRequiresUpdate = true;
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    SetAllRTreesRequireUpdate();
     Administrate();
 }
-- 
2.43.0


From 47abe4605baf986283412367ebfa2beaa1581998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 013/119] fix: undo of mesh2d orthogonalization restores the
 nodes outside of the polygon too

---
 .../MeshKernel/src/OrthogonalizationAndSmoothing.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..b090cd7 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -63,9 +63,6 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
     m_mesh.Administrate();
     const auto nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
 
-    std::vector<UInt> nodeIndices(m_mesh.GetNumNodes(), constants::missing::uintValue);
-    UInt nodesMovedCount = 0;
-
     // Flag nodes outside the polygon as corner points
     for (UInt n = 0; n < nodeMask.size(); n++)
     {
@@ -73,15 +70,10 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
         {
             m_mesh.m_nodesTypes[n] = 3;
         }
-        else
-        {
-            nodeIndices[nodesMovedCount] = n;
-            ++nodesMovedCount;
-        }
     }
 
-    nodeIndices.resize(nodesMovedCount);
-    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh, nodeIndices);
+    // Nodes outside the polygon can be moved as well, when snapping to the boundary, so save all nodes
+    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh);
 
     // TODO: calculate volume weights for areal smoother
     m_mumax = (1.0 - m_orthogonalizationParameters.areal_to_angle_smoothing_factor) * 0.5;
-- 
2.43.0


From c3a8121b2a045182f8443ba0e4be80dbc8ab9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:05 +0000
Subject: [PATCH 014/119] fix: the smoother reports a face that cannot be found
 instead of reading out of bounds

---
 libs/MeshKernel/src/Smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 8b0b220..95fc9d1 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -322,7 +322,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         const auto leftFace = m_mesh.m_edgesFaces[edgeIndex][0];
         faceLeftIndex = FindIndex(m_topologySharedFaces[currentTopology], leftFace);
 
-        if (m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
+        if (faceLeftIndex == constants::missing::uintValue || m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
         {
             throw std::invalid_argument(std::string("Smoother::ComputeOperatorsNode: Face could not be found,") +
                                         std::string("this happens when the face is outside of the polygon or maximumNumberOfEdgesPerFace is too low"));
-- 
2.43.0


From 6bb3a4741af57ca35be15789846138cf18031a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:05 +0000
Subject: [PATCH 015/119] fix: converting to a curvilinear grid skips the edges
 without faces

---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 9eea743..ffd76c5 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -305,6 +305,11 @@ bool Mesh2DToCurvilinear::CheckGridLine(const UInt validNode, const UInt candida
         const auto edgeIndex = m_mesh.m_nodesEdges[candidateNode][e];
         const auto otherNode = OtherNodeOfEdge(m_mesh.GetEdge(edgeIndex), candidateNode);
 
+        if (m_mesh.m_edgesNumFaces[edgeIndex] == 0)
+        {
+            continue;
+        }
+
         bool doCheck = m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
 
         if (m_mesh.m_edgesNumFaces[edgeIndex] == 2)
-- 
2.43.0


From b758b30a465ea4d1ebb3c876cf3226f15c5b5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 016/119] fix: copying a curvilinear grid keeps its projection
 and its offsets

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 0561908..4b4e909 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,27 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
-- 
2.43.0


From 4563873277a1096049e0d0e4d6f3311a1053ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 017/119] fix: new curvilinear grid nodes are not cut by the
 offsets of the previous ones

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 4b4e909..d1fded1 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -131,8 +131,6 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
 
         m_startOffset = copy.m_startOffset;
         m_endOffset = copy.m_endOffset;
-
-        SetGridNodes(m_gridNodes);
     }
 
     return *this;
@@ -146,6 +144,8 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
     }
 
     m_gridNodes = gridNodes;
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
@@ -162,6 +162,8 @@ void CurvilinearGrid::SetGridNodes(lin_alg::Matrix<Point>&& gridNodes)
     }
 
     m_gridNodes = std::move(gridNodes);
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
-- 
2.43.0


From 0d6d886f47ab2815bcc5a9aa4a31bdcbb3c346e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 018/119] fix: undo of deleting a curvilinear grid node
 restores the nodes left without faces

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index d1fded1..52fbc76 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1057,13 +1057,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Nodes that no longer belong to any face are invalidated too, so save all nodes
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
-- 
2.43.0


From 1277bde3bea19d6500ecd9b69f383edb5881d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 019/119] fix: deleting the interior or exterior of a
 curvilinear grid block is undone and redone exactly

---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp | 11 ++++-------
 .../CurvilinearGrid/CurvilinearGridDeleteInterior.cpp |  5 ++++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..6696c33 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // Nodes inside the box that no longer belong to any face are invalidated too, so save all nodes
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
@@ -93,5 +88,7 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
         }
     }
 
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index e02cd67..ed036c6 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -47,7 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, m_upperRight);
+    // Nodes that no longer belong to any face are invalidated too, so save all nodes
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     for (UInt n = lowerLimitI + 1; n < upperLimitI; ++n)
     {
@@ -57,5 +58,7 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
         }
     }
 
+    m_grid.ComputeGridNodeTypes();
+
     return undoAction;
 }
-- 
2.43.0


From 4a5f402a1d90a49fa5705db5e28ed456edb04f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 020/119] fix: redo of a curvilinear grid de-refinement gives
 the same nodes

---
 .../src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
index a504de0..acc9e2c 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp
@@ -81,6 +81,7 @@ meshkernel::UndoActionPtr CurvilinearGridDeRefinement::Compute()
 
     // substitute original grid with the derefined one
     m_grid.SetGridNodes(lin_alg::STLVectorOfVectorsToMatrix(deRefinedGrid));
+    m_grid.ComputeGridNodeTypes();
 
     return undoAction;
 }
-- 
2.43.0


From e65a19194844b80f64d725a5a59683acf7614876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 021/119] fix: mirroring the left grid line saves the nodes
 that it changes

---
 .../src/CurvilinearGrid/CurvilinearGridLineMirror.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..70aba04 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -91,8 +91,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From cdb21e56773ed6e47824b3794b78c0ebcd6561dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 022/119] fix: undo of a line shift restores a line outside of
 the influence area

---
 .../src/CurvilinearGrid/CurvilinearGridLineShift.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index e744f87..ea24cf5 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -31,6 +31,8 @@
 #include <MeshKernel/Entities.hpp>
 #include <MeshKernel/UndoActions/CompoundUndoAction.hpp>
 
+#include <algorithm>
+
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLineShift;
 using meshkernel::CurvilinearGridNodeIndices;
@@ -49,10 +51,12 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
         throw std::invalid_argument("CurvilinearGridLineShift::Compute No candidate line to shift has been selected");
     }
 
-    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_n;
-    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_n;
-    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_m;
-    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_m;
+    // The block to save contains the line, which is shifted too when it lies outside of the influence area
+    auto const constant = m_lines[0].m_constantCoordinate;
+    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_n, constant);
+    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_n, constant);
+    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_m, constant);
+    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_m, constant);
 
     std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {startN, startM}, {endN + 1, endM + 1});
 
-- 
2.43.0


From 2832070a967fbc586bd30273264840592eb0d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 023/119] fix: undo of a circular curvilinear grid restores the
 previous grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4649d68..aa101a1 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4310,8 +4310,8 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(
+                meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters, meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From c804f6e69e90b7bbec7bfeff27d0bf0d25a4fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:23 +0000
Subject: [PATCH 024/119] fix: undo of directional smoothing restores the
 previous grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index aa101a1..19dd4f5 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4534,8 +4534,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute, on a copy because the undo action keeps the current grid
+            meshkernel::CurvilinearGrid curvilinearGrid(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(curvilinearGrid, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From 9a12699c10dbada9200f636267a9643ed929fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 025/119] fix: adding a curvilinear grid line updates the node
 indices and the search trees

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 52fbc76..fc04068 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -802,6 +802,14 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
         }
     }
 
+    if (gridSizeChanged)
+    {
+        m_gridIndices = ComputeNodeIndices();
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+    }
+
     return {gridSizeChanged, std::move(undoAction)};
 }
 
-- 
2.43.0


From 206639000b1d1d8f4c3f31ecc039958b952b6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 026/119] fix: merging nodes skips deleted nodes and merges
 each node once

---
 libs/MeshKernel/src/Mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 2069dfc..d30d7ed 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -416,7 +416,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     UInt filteredNodeCount = 0;
     for (UInt i = 0; i < numNodes; ++i)
     {
-        if (isNodeInPolygon[i])
+        if (isNodeInPolygon[i] && m_nodes[i].IsValid())
         {
             filteredNodes[filteredNodeCount] = m_nodes[i];
             originalNodeIndices[filteredNodeCount] = i;
@@ -455,6 +455,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
                 {
                     undoAction->Add(MergeTwoNodes(originalNodeIndices[i], originalNodeIndices[nodeIndexInFilteredNodes]));
                     nodesRtree->DeleteNode(i);
+                    // Node i no longer exists: it cannot be merged once more
+                    break;
                 }
             }
         }
-- 
2.43.0


From 0150b491603d36ad2d08fa03f2f000ac65f0299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 027/119] fix: triangulating fewer than three points is an
 error instead of ending the process

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 16a7809..c55f87c 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -88,6 +88,10 @@ namespace meshkernel
             {
                 throw ConstraintError("The sample is empty.");
             }
+            if (inputNodes.size() < constants::geometric::numNodesInTriangle)
+            {
+                throw ConstraintError("At least three points are required for a triangulation.");
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
-- 
2.43.0


From 9cc8799dfe7bd25aa1630556ee0651c6c06b0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:33 +0000
Subject: [PATCH 028/119] fix: the refinement edge mask does not overrun for
 faces with more than four sides

---
 libs/MeshKernel/src/MeshRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index 5a1f08d..623e4ca 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -1147,7 +1147,7 @@ void MeshRefinement::ComputeEdgesRefinementMask()
     bool repeat = true;
     UInt iter = 0;
     const UInt numMaxIterations = 6;
-    std::vector<int> isQuadEdge(constants::geometric::numNodesInQuadrilateral);
+    std::vector<int> isQuadEdge(Mesh::m_maximumNumberOfEdgesPerFace);
     std::vector<UInt> numOfEdges(Mesh::m_maximumNumberOfEdgesPerFace);
 
     while (repeat && iter < numMaxIterations)
-- 
2.43.0


From 9977533c425a7168c1b0afd316f9974dcf045ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:51 +0000
Subject: [PATCH 029/119] fix: connecting meshes with more nodes than edges, or
 with an edge removed already, does not overrun

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..c51c49b 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -194,6 +194,12 @@ void meshkernel::ConnectMeshes::GatherHangingNodes(const UInt primaryStartNode,
     const UInt secondaryStartNode = irregularEdge.first;
     const UInt secondaryEndNode = irregularEdge.second;
 
+    if (secondaryStartNode == constants::missing::uintValue || secondaryEndNode == constants::missing::uintValue)
+    {
+        // The edge has been removed already
+        return;
+    }
+
     if (mergeIndicator[secondaryStartNode] == MergeIndicator::Initial && secondaryStartNode != primaryStartNode && secondaryStartNode != primaryEndNode)
     {
         hangingNodesOnEdge[numberOfHangingNodes] = secondaryStartNode;
@@ -239,7 +245,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
-- 
2.43.0


From 5be8c2a7486697380888bcaa19b5bdda07926b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:51 +0000
Subject: [PATCH 030/119] fix: Casulli de-refinement redirects the nodes of the
 connected element

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 4b9fd87..8745003 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -746,7 +746,7 @@ void meshkernel::CasulliDeRefinement::RedirectNodesOfConnectedElements(Mesh2D& m
             {
                 if (faceNodeId == mesh.m_facesNodes[elementId][k])
                 {
-                    mesh.m_facesNodes[elementId][j] = nodeId;
+                    mesh.m_facesNodes[connectedElementId][j] = nodeId;
                 }
             }
         }
-- 
2.43.0


From 88c7f50cf5819a6ae6f1f6d2c88f50670840db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:51 +0000
Subject: [PATCH 031/119] fix: Casulli refinement does not connect the nodes
 that it has not created

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..6fc5c74 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -322,6 +322,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectFa
             oldIndex[j] = mesh.GetEdge(edgeId).second;
             newIndex[j] = newNodes[edgeId][1];
         }
+
+        if (newIndex[j] == constants::missing::uintValue)
+        {
+            // No new node has been created along this edge
+            return connectFacesAction;
+        }
     }
 
     for (UInt j = 0; j < mesh.m_numFacesNodes[currentFace]; ++j)
-- 
2.43.0


From dd52f194dc1c820d0b01e5f011a46e899e378f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:52 +0000
Subject: [PATCH 032/119] fix: nodes without faces are removed after the
 curvilinear interior or exterior is deleted through the API

---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp  |  2 --
 .../CurvilinearGrid/CurvilinearGridDeleteInterior.cpp  |  2 --
 libs/MeshKernelApi/src/MeshKernel.cpp                  | 10 ++++++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 6696c33..b81290e 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -88,7 +88,5 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
         }
     }
 
-    m_grid.ComputeGridNodeTypes();
-
     return undoAction;
 }
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index ed036c6..773fa89 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -58,7 +58,5 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
         }
     }
 
-    m_grid.ComputeGridNodeTypes();
-
     return undoAction;
 }
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 19dd4f5..9e6f1e4 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4842,7 +4842,10 @@ namespace meshkernelapi
             curvilinearDeleteExterior.SetBlock({xFirstPointCoordinate, yFirstPointCoordinate},
                                                {xSecondPointCoordinate, ySecondPointCoordinate});
 
-            meshKernelUndoStack.Add(curvilinearDeleteExterior.Compute(), meshKernelId);
+            auto undoAction = curvilinearDeleteExterior.Compute();
+            // Nodes without any face left are no longer part of the grid
+            meshKernelState[meshKernelId].m_curvilinearGrid->ComputeGridNodeTypes();
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -4879,7 +4882,10 @@ namespace meshkernelapi
             curvilinearDeleteInterior.SetBlock({xFirstPointCoordinate, yFirstPointCoordinate},
                                                {xSecondPointCoordinate, ySecondPointCoordinate});
 
-            meshKernelUndoStack.Add(curvilinearDeleteInterior.Compute(), meshKernelId);
+            auto undoAction = curvilinearDeleteInterior.Compute();
+            // Nodes without any face left are no longer part of the grid
+            meshKernelState[meshKernelId].m_curvilinearGrid->ComputeGridNodeTypes();
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 5a751df932161bfe1f2fff681d4fab4835524cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:38 +0000
Subject: [PATCH 033/119] fix: the smoother does not overrun for nodes with
 more edges than shared faces

---
 libs/MeshKernel/src/Smoother.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 95fc9d1..76f6089 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -475,8 +475,11 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         }
     }
 
+    // A node can have more edges than shared faces, when some of its edges do not belong to a face
+    const UInt numSharedFaces = std::min(m_mesh.m_nodesNumEdges[currentNode], static_cast<UInt>(m_topologySharedFaces[currentTopology].size()));
+
     double volxi = 0.0;
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < numSharedFaces; i++)
     {
         volxi += 0.5 * (m_Divxi[currentTopology][i] * m_xisCache[i] + m_Diveta[currentTopology][i] * m_etasCache[i]);
     }
@@ -485,7 +488,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         volxi = 1.0;
     }
 
-    for (UInt i = 0; i < m_mesh.m_nodesNumEdges[currentNode]; i++)
+    for (UInt i = 0; i < numSharedFaces; i++)
     {
         m_Divxi[currentTopology][i] = m_Divxi[currentTopology][i] / volxi;
         m_Diveta[currentTopology][i] = m_Diveta[currentTopology][i] / volxi;
@@ -500,7 +503,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
             UInt rightNode;
             if (f == 0)
             {
-                rightNode = f + m_mesh.m_nodesNumEdges[currentNode] - 1;
+                rightNode = f + numSharedFaces - 1;
             }
             else
             {
@@ -524,7 +527,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
 
     // compute the weights in the Laplacian smoother
     std::fill(m_ww2[currentTopology].begin(), m_ww2[currentTopology].end(), 0.0);
-    for (UInt n = 0; n < m_mesh.m_nodesNumEdges[currentNode]; n++)
+    for (UInt n = 0; n < numSharedFaces; n++)
     {
         for (UInt i = 0; i < m_topologyConnectedNodes[currentTopology].size(); i++)
         {
-- 
2.43.0


From 734ed1a635da2e07cf6f58d7ac3c57034676465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 034/119] fix: orthogonalization in the spherical accurate
 projection is reported as not implemented

---
 libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index b090cd7..6fbb587 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -59,6 +59,12 @@ OrthogonalizationAndSmoothing::OrthogonalizationAndSmoothing(Mesh2D& mesh,
 
 std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initialize()
 {
+    if (m_mesh.m_projection == Projection::sphericalAccurate)
+    {
+        // The local coordinates are not computed yet for this projection, see ComputeCoordinates
+        throw NotImplementedError("Orthogonalization is not implemented for the spherical accurate projection.");
+    }
+
     // Sets the node mask
     m_mesh.Administrate();
     const auto nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
-- 
2.43.0


From 46c9db365569414f32322df73a5da81ad38e7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 035/119] fix: a curvilinear line shift does not move missing
 nodes

---
 .../src/CurvilinearGrid/CurvilinearGridLineShift.cpp         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index ea24cf5..4d91a30 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -87,6 +87,11 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
 
             auto const nodeIndex = m_lines[0].GetNodeIndexFromCoordinate(j);
 
+            if (!m_originalGrid.GetNode(nodeIndex.m_n, nodeIndex.m_m).IsValid())
+            {
+                continue;
+            }
+
             auto const firstFactor = static_cast<double>(j - previousCoordinate) / static_cast<double>(i - previousCoordinate);
             auto const secondFactor = 1.0 - firstFactor;
 
-- 
2.43.0


From 1fbd672333fa6edff3ad817eff94c20b3fe1079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 036/119] fix: the smoother has a weight for each edge of nodes
 without shared faces

---
 libs/MeshKernel/src/Smoother.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 76f6089..70d34a5 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -137,7 +137,9 @@ void Smoother::ComputeWeights()
         Ginv[n][3] = 1.0;
     }
 
-    ResizeAndFill2DVector(m_weights, m_mesh.GetNumNodes(), m_maximumNumConnectedNodes, true, 0.0);
+    // A node without shared faces has no connected nodes, but a weight (zero) is needed for each of its edges
+    const UInt numWeights = std::max(m_maximumNumConnectedNodes, Mesh::m_maximumNumberOfEdgesPerNode + 1);
+    ResizeAndFill2DVector(m_weights, m_mesh.GetNumNodes(), numWeights, true, 0.0);
     std::vector<double> a1(2);
     std::vector<double> a2(2);
 
-- 
2.43.0


From ee2aca70c0e808b7552011a00ca12573f6af629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:26 +0000
Subject: [PATCH 037/119] fix: curvilinear refinement and smoothing ignore the
 grid lines hidden by an undo

---
 .../include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp  | 6 +++---
 .../UndoActions/CurvilinearGridRefinementUndoAction.cpp     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..a5cc19d 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -398,17 +398,17 @@ namespace meshkernel
         /// @brief Get a copy of the nodes matrix
         /// @note:the m dimension is the first (or row) index, the n dimension is the second (or column) index
         /// @return a copy of the matrix
-        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes; }
+        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes.block(m_startOffset.m_n, m_startOffset.m_m, NumN(), NumM()); }
 
         /// @brief Get the array of nodes at an m-dimension index
         /// @param [in] m the m-dimension index
         /// @return a vector of N nodes
-        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_m); }
+        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(GetNodes(), m); }
 
         /// @brief Get the array of nodes at an n-dimension index
         /// @param [in] n the n-dimension index
         /// @return a vector of M nodes
-        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_n); }
+        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(GetNodes(), n); }
 
         /// @brief Compute a sequence of one or more outer boundary polygons separated by geometry separators
         /// @param[in]  lowerLeft   The node index of the lower left corner
diff --git a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
index 357cb9f..d061fb6 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
@@ -7,7 +7,7 @@ std::unique_ptr<meshkernel::CurvilinearGridRefinementUndoAction> meshkernel::Cur
 }
 
 meshkernel::CurvilinearGridRefinementUndoAction::CurvilinearGridRefinementUndoAction(CurvilinearGrid& grid)
-    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(grid.StartOffset()), m_endOffset(grid.EndOffset()) {}
+    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(0, 0), m_endOffset(0, 0) {}
 
 void meshkernel::CurvilinearGridRefinementUndoAction::Swap(lin_alg::Matrix<Point>& nodes, CurvilinearGridNodeIndices& startOffset, CurvilinearGridNodeIndices& endOffset)
 {
-- 
2.43.0


From 1f62272f638d612620232fb1a17c5164ffcf302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:01 +0000
Subject: [PATCH 038/119] fix: connecting meshes with many hanging nodes along
 an edge does not overrun

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index c51c49b..a20c279 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -685,6 +685,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeHangingNo
         return nullptr;
     }
 
+    if (numberOfHangingNodes > m_maximumNumberOfIrregularElementsAlongEdge)
+    {
+        throw NotImplementedError("Cannot handle more than 4 hanging nodes along irregular edge, number is: {}",
+                                  numberOfHangingNodes);
+    }
+
     std::unique_ptr<CompoundUndoAction> freeHangingNodesAction = CompoundUndoAction::Create();
 
     BoundedIntegerArray hangingNodes;
-- 
2.43.0


From efcb20b399b5798c66fcc71e4884dccaa7655543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:34 +0000
Subject: [PATCH 039/119] fix: connecting meshes skips boundary edges that have
 been removed already

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index a20c279..8996dc6 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -262,6 +262,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
         const UInt boundaryEdgeId = edgesOnDomainBoundary[i];
         const Edge boundaryEdge = mesh.GetEdge(boundaryEdgeId);
 
+        if (boundaryEdge.first == missingValue || boundaryEdge.second == missingValue)
+        {
+            // The edge has been removed already
+            continue;
+        }
+
         const UInt primaryStartNode = irregularEdge.startNode;
         const UInt primaryEndNode = irregularEdge.endNode;
 
-- 
2.43.0


From f9b4254c6a5890080b918038a2b9553bb84ce692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:43 +0000
Subject: [PATCH 040/119] fix: a mesh2d refinement, de-refinement, row split or
 orthogonalization that fails leaves the mesh and the undo stack unchanged

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 66 +++++++++++++++++++++------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 9e6f1e4..0b5443c 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -147,6 +147,23 @@ namespace meshkernelapi
         }
     }
 
+    /// @brief Execute an operation that changes the mesh, if the operation fails then the mesh is left as it was before
+    template <typename Operation>
+    static std::unique_ptr<meshkernel::UndoAction> ExecuteOrRestore(meshkernel::Mesh2D& mesh, Operation&& operation)
+    {
+        auto savedMesh = meshkernel::FullUnstructuredGridUndo::Create(mesh);
+
+        try
+        {
+            return operation();
+        }
+        catch (...)
+        {
+            savedMesh->Restore();
+            throw;
+        }
+    }
+
     MKERNEL_API int mkernel_allocate_state(int projectionType, int& meshKernelId)
     {
         lastExitCode = meshkernel::ExitCode::Success;
@@ -530,7 +547,10 @@ namespace meshkernelapi
                                                                                        static_cast<meshkernel::UInt>(secondNode));
 
             meshkernel::SplitRowColumnOfMesh splitAlongRow;
-            meshKernelUndoStack.Add(splitAlongRow.Compute(*meshKernelState[meshKernelId].m_mesh2d, edgeId), meshKernelId);
+            auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+            meshKernelUndoStack.Add(ExecuteOrRestore(mesh2d, [&splitAlongRow, &mesh2d, edgeId]()
+                                                     { return splitAlongRow.Compute(mesh2d, edgeId); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -1247,8 +1267,12 @@ namespace meshkernelapi
                                                                        std::move(landBoundary),
                                                                        static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                        orthogonalizationParameters);
-            meshKernelUndoStack.Add(ortogonalization.Initialize(), meshKernelId);
-            ortogonalization.Compute();
+            meshKernelUndoStack.Add(ExecuteOrRestore(*meshKernelState[meshKernelId].m_mesh2d, [&ortogonalization]()
+                                                     {
+                                                         auto undoAction = ortogonalization.Initialize();
+                                                         ortogonalization.Compute();
+                                                         return undoAction; }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -2672,7 +2696,9 @@ namespace meshkernelapi
             meshkernel::MeshRefinement meshRefinement(*meshKernelState[meshKernelId].m_mesh2d,
                                                       std::move(averaging),
                                                       meshRefinementParameters);
-            meshKernelUndoStack.Add(meshRefinement.Compute(), meshKernelId);
+            meshKernelUndoStack.Add(ExecuteOrRestore(*meshKernelState[meshKernelId].m_mesh2d, [&meshRefinement]()
+                                                     { return meshRefinement.Compute(); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -2724,7 +2750,9 @@ namespace meshkernelapi
             meshkernel::MeshRefinement meshRefinement(*meshKernelState[meshKernelId].m_mesh2d,
                                                       std::move(averaging),
                                                       meshRefinementParameters);
-            meshKernelUndoStack.Add(meshRefinement.Compute(), meshKernelId);
+            meshKernelUndoStack.Add(ExecuteOrRestore(*meshKernelState[meshKernelId].m_mesh2d, [&meshRefinement]()
+                                                     { return meshRefinement.Compute(); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -2756,7 +2784,9 @@ namespace meshkernelapi
                                                       std::move(interpolant),
                                                       meshRefinementParameters,
                                                       useNodalRefinement);
-            meshKernelUndoStack.Add(meshRefinement.Compute(), meshKernelId);
+            meshKernelUndoStack.Add(ExecuteOrRestore(*meshKernelState[meshKernelId].m_mesh2d, [&meshRefinement]()
+                                                     { return meshRefinement.Compute(); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -2786,7 +2816,9 @@ namespace meshkernelapi
             const auto polygon = meshkernel::Polygons(points, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
             meshkernel::MeshRefinement meshRefinement(*meshKernelState[meshKernelId].m_mesh2d, polygon, meshRefinementParameters);
-            meshKernelUndoStack.Add(meshRefinement.Compute(), meshKernelId);
+            meshKernelUndoStack.Add(ExecuteOrRestore(*meshKernelState[meshKernelId].m_mesh2d, [&meshRefinement]()
+                                                     { return meshRefinement.Compute(); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -2981,7 +3013,10 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshkernel::CasulliRefinement::Compute(*meshKernelState[meshKernelId].m_mesh2d), meshKernelId);
+            auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+            meshKernelUndoStack.Add(ExecuteOrRestore(mesh2d, [&mesh2d]()
+                                                     { return meshkernel::CasulliRefinement::Compute(mesh2d); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -3006,8 +3041,9 @@ namespace meshkernelapi
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            meshKernelUndoStack.Add(meshkernel::CasulliRefinement::Compute(*meshKernelState[meshKernelId].m_mesh2d,
-                                                                           meshKernelPolygons),
+            auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+            meshKernelUndoStack.Add(ExecuteOrRestore(mesh2d, [&mesh2d, &meshKernelPolygons]()
+                                                     { return meshkernel::CasulliRefinement::Compute(mesh2d, meshKernelPolygons); }),
                                     meshKernelId);
         }
         catch (...)
@@ -3101,7 +3137,10 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelUndoStack.Add(meshkernel::CasulliDeRefinement::Compute(*meshKernelState[meshKernelId].m_mesh2d), meshKernelId);
+            auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+            meshKernelUndoStack.Add(ExecuteOrRestore(mesh2d, [&mesh2d]()
+                                                     { return meshkernel::CasulliDeRefinement::Compute(mesh2d); }),
+                                    meshKernelId);
         }
         catch (...)
         {
@@ -3125,8 +3164,9 @@ namespace meshkernelapi
             auto polygonPoints = ConvertGeometryListToPointVector(polygons);
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
-            meshKernelUndoStack.Add(meshkernel::CasulliDeRefinement::Compute(*meshKernelState[meshKernelId].m_mesh2d,
-                                                                             meshKernelPolygons),
+            auto& mesh2d = *meshKernelState[meshKernelId].m_mesh2d;
+            meshKernelUndoStack.Add(ExecuteOrRestore(mesh2d, [&mesh2d, &meshKernelPolygons]()
+                                                     { return meshkernel::CasulliDeRefinement::Compute(mesh2d, meshKernelPolygons); }),
                                     meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 5e92fe33bef77cd5d16dcb886e05601223fc6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 041/119] fix: computing contacts that fails leaves the
 existing contacts unchanged

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 45 +++++++++++++++------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 0b5443c..50d572f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3605,11 +3605,12 @@ namespace meshkernelapi
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3636,11 +3637,12 @@ namespace meshkernelapi
             auto meshKernel1DNodeMask = ConvertIntegerArrayToBoolVector(oneDNodeMask,
                                                                         num1DNodes);
 
-            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3673,13 +3675,14 @@ namespace meshkernelapi
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
                                                                                   meshKernelPolygons);
 
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
+
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
@@ -3708,11 +3711,12 @@ namespace meshkernelapi
             // Convert polygon date from GeometryList to Point vector
             auto meshKernelPoints = ConvertGeometryListToPointVector(points);
 
-            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3807,11 +3811,12 @@ namespace meshkernelapi
             auto const polygonPoints = ConvertGeometryListToPointVector(polygons);
             const meshkernel::Polygons meshKernelPolygons(polygonPoints, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 5dbb2e53eb66db6f0b5db3c9432e91092707d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 042/119] fix: undo of setting a network1d restores the
 previous network

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 50d572f..dfc3c1d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -681,8 +681,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // The existing network is kept for the undo
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From f413fe96bcfe9e536e6496533d15bde937855c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 043/119] fix: the projection of a state that does not exist is
 an error instead of creating the state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index dfc3c1d..3a1dad0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5380,7 +5380,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From f5f6b86b1ee44c08cd792ed987c85791c814e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 044/119] fix: the closest node is not read if its index has
 not been found

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3a1dad0..f87f9de 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2912,6 +2912,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
-- 
2.43.0


From f137867f532bee27b60bc630384b99c4b80b6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:04 +0000
Subject: [PATCH 045/119] fix: the steps of an orthogonalization or line shift
 that has not been initialized are an error

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f87f9de..e7215a5 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1343,6 +1343,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("OrthogonalizationAndSmoothing not instantiated.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1367,6 +1372,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("OrthogonalizationAndSmoothing not instantiated.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1425,6 +1435,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("OrthogonalizationAndSmoothing not instantiated.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
@@ -4651,6 +4666,11 @@ namespace meshkernelapi
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetLine(firstNode, secondNode);
         }
         catch (...)
@@ -4713,6 +4733,11 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetBlock(lowerLeftPoint, upperRightPoint);
         }
         catch (...)
@@ -4737,6 +4762,11 @@ namespace meshkernelapi
             }
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 0b550c93e0d06f068af58ee67fd5f9435657871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:40 +0000
Subject: [PATCH 046/119] fix: Casulli refinement of a mesh with edges without
 faces

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 6fc5c74..312e129 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -402,7 +402,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
             newEdges[edgeCount] = edgeId;
             ++edgeCount;
         }
-        else
+        else if (mesh.m_edgesNumFaces[edgeId] > 1)
         {
             if (mesh.GetEdge(edgeId).first == currentNode)
             {
@@ -550,6 +550,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectNe
         {
             const UInt edgeId = mesh.m_nodesEdges[i][j];
 
+            if (mesh.m_edgesNumFaces[edgeId] == 0)
+            {
+                // No new nodes have been created for an edge without faces
+                continue;
+            }
+
             if (mesh.GetEdge(edgeId).first == i)
             {
                 auto [edgeId1, connectionAction1] = mesh.ConnectNodes(i, newNodes[edgeId][0]);
-- 
2.43.0


From defde74b8e74b37645066affb6cecb26608af3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:51 +0000
Subject: [PATCH 047/119] fix: generating more points than estimated in a
 polygon does not overrun the coordinate arrays

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index c55f87c..a20ca66 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -132,6 +132,12 @@ namespace meshkernel
                 m_yCoordFlat.resize(estimatedNumberOfTriangles * 3, constants::missing::doubleValue);
                 std::ranges::fill(m_yCoordFlat, 0.0);
 
+                if (triangulationOption == TriangulationOptions::GeneratePoints)
+                {
+                    // The number of nodes that fit in the coordinate arrays
+                    m_numNodes = static_cast<int>(m_xCoordFlat.size());
+                }
+
                 Triangulation(intTriangulationOption,
                               xLocalPolygon.data(),
                               yLocalPolygon.data(),
-- 
2.43.0


From 9d620ae68b6be81131195b6aa65776b9826ed662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:51 +0000
Subject: [PATCH 048/119] fix: moving a mesh node uses a displacement in
 coordinates, skips deleted nodes and may leave the node where it is

---
 libs/MeshKernel/src/Mesh.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d30d7ed..fc80281 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -739,8 +739,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
     const auto dx = GetDx(nodeToMove, newPoint, m_projection);
     const auto dy = GetDy(nodeToMove, newPoint, m_projection);
 
+    // The displacement has the units of the coordinates, not those of the distance
+    const Vector displacement(newPoint.x - nodeToMove.x, newPoint.y - nodeToMove.y);
+
     const double distanceNodeToMoveFromNewPointSquared = dx * dx + dy * dy;
-    const double distanceNodeToMoveFromNewPointSquaredInv = 1.0 / distanceNodeToMoveFromNewPointSquared;
+    const double distanceNodeToMoveFromNewPointSquaredInv = distanceNodeToMoveFromNewPointSquared > 0.0 ? 1.0 / distanceNodeToMoveFromNewPointSquared : 0.0;
 
     std::vector<UInt> movedNodeIndex;
     std::vector<Vector> nodeDisplacement;
@@ -749,6 +752,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     for (UInt n = 0; n < GetNumNodes(); ++n)
     {
+        if (!m_nodes[n].IsValid())
+        {
+            continue;
+        }
+
         const auto nodeDx = GetDx(m_nodes[n], nodeToMove, m_projection);
         const auto nodeDy = GetDy(m_nodes[n], nodeToMove, m_projection);
         const double distanceCurrentNodeFromNewPointSquared = nodeDx * nodeDx + nodeDy * nodeDy;
@@ -757,7 +765,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         {
             const auto factor = 0.5 * (1.0 + std::cos(std::sqrt(distanceCurrentNodeFromNewPointSquared * distanceNodeToMoveFromNewPointSquaredInv) * M_PI));
 
-            nodeDisplacement.emplace_back(dx * factor, dy * factor);
+            nodeDisplacement.emplace_back(displacement.x() * factor, displacement.y() * factor);
             movedNodeIndex.emplace_back(n);
         }
     }
-- 
2.43.0


From 696259383686c821bd862ecc5c7396c4742cb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 049/119] fix: inserting an edge from coordinates only reuses
 nodes within the search radius

The search tree of a spherical mesh measures in degrees, the radius is a length:
both ends of the new edge could be mapped to the same far away node.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index e7215a5..072cbb4 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2280,7 +2280,19 @@ namespace meshkernelapi
 
             meshKernelState[meshKernelId].m_mesh2d->BuildTree(meshkernel::Location::Nodes);
 
-            auto firstNodeId = meshKernelState[meshKernelId].m_mesh2d->FindNodeCloseToAPoint(firstNodeCoordinates, searchRadius);
+            // The search tree of a spherical mesh works in degrees, the search radius is a length: check the distance of the node that was found
+            const auto findNode = [meshKernelId, searchRadius](const meshkernel::Point& point)
+            {
+                auto& mesh = *meshKernelState[meshKernelId].m_mesh2d;
+                const auto nodeId = mesh.FindNodeCloseToAPoint(point, searchRadius);
+                if (nodeId != meshkernel::constants::missing::uintValue && ComputeDistance(mesh.Node(nodeId), point, mesh.m_projection) > searchRadius)
+                {
+                    return meshkernel::constants::missing::uintValue;
+                }
+                return nodeId;
+            };
+
+            auto firstNodeId = findNode(firstNodeCoordinates);
             if (firstNodeId == meshkernel::constants::missing::uintValue)
             {
                 auto result = meshKernelState[meshKernelId].m_mesh2d->InsertNode(firstNodeCoordinates);
@@ -2290,7 +2302,7 @@ namespace meshkernelapi
             }
             firstNodeIndex = static_cast<int>(firstNodeId);
 
-            auto secondNodeId = meshKernelState[meshKernelId].m_mesh2d->FindNodeCloseToAPoint(secondNodeCoordinates, searchRadius);
+            auto secondNodeId = findNode(secondNodeCoordinates);
             if (secondNodeId == meshkernel::constants::missing::uintValue)
             {
                 auto result = meshKernelState[meshKernelId].m_mesh2d->InsertNode(secondNodeCoordinates);
-- 
2.43.0


From e3b3ec675f426ea753c627433ab77346e943a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:30 +0000
Subject: [PATCH 050/119] fix: Casulli refinement connects a kept corner node
 only once to each new node

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 46 ++++++++++-------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 312e129..9e14fb5 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -387,6 +387,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
     std::unique_ptr<meshkernel::CompoundUndoAction> connectEdgesAction = CompoundUndoAction::Create();
     std::fill(newEdges.begin(), newEdges.end(), constants::missing::uintValue);
     edgeCount = 0;
+    std::vector<UInt> connectedNewNodes;
 
     for (UInt j = 0; j < mesh.m_nodesNumEdges[currentNode]; ++j)
     {
@@ -404,21 +405,17 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectEd
         }
         else if (mesh.m_edgesNumFaces[edgeId] > 1)
         {
-            if (mesh.GetEdge(edgeId).first == currentNode)
-            {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][0]);
-                connectEdgesAction->Add(std::move(connectionAction1));
+            const bool isFirstNode = mesh.GetEdge(edgeId).first == currentNode;
 
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][2]);
-                connectEdgesAction->Add(std::move(connectionAction2));
-            }
-            else
+            for (const UInt newNode : {newNodes[edgeId][isFirstNode ? 0 : 1], newNodes[edgeId][isFirstNode ? 2 : 3]})
             {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(currentNode, newNodes[edgeId][1]);
-                connectEdgesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(currentNode, newNodes[edgeId][3]);
-                connectEdgesAction->Add(std::move(connectionAction2));
+                // The new node of the face between two edges is shared by them, connect to it once
+                if (std::ranges::find(connectedNewNodes, newNode) == connectedNewNodes.end())
+                {
+                    auto [newEdgeId, connectionAction] = mesh.ConnectNodes(currentNode, newNode);
+                    connectEdgesAction->Add(std::move(connectionAction));
+                    connectedNewNodes.push_back(newNode);
+                }
             }
         }
     }
@@ -492,7 +489,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::CreateMis
         {
             for (UInt j = 0; j < edgeCount; ++j)
             {
-                if (nodesToConnect[j] != constants::missing::uintValue && nodesToConnect[j] != i)
+                if (nodesToConnect[j] != constants::missing::uintValue && nodesToConnect[j] != i && mesh.FindEdgeWithLinearSearch(i, nodesToConnect[j]) == constants::missing::uintValue)
                 {
                     auto [edgeId, connectionAction] = mesh.ConnectNodes(i, nodesToConnect[j]);
                     missingBoundariesAction->Add(std::move(connectionAction));
@@ -556,21 +553,16 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectNe
                 continue;
             }
 
-            if (mesh.GetEdge(edgeId).first == i)
-            {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(i, newNodes[edgeId][0]);
-                connectNodesAction->Add(std::move(connectionAction1));
+            // The edges to some of these nodes have been made already, e.g. the node of the face between two edges is shared by them
+            const bool isFirstNode = mesh.GetEdge(edgeId).first == i;
 
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(i, newNodes[edgeId][2]);
-                connectNodesAction->Add(std::move(connectionAction2));
-            }
-            else
+            for (const UInt newNode : {newNodes[edgeId][isFirstNode ? 0 : 1], newNodes[edgeId][isFirstNode ? 2 : 3]})
             {
-                auto [edgeId1, connectionAction1] = mesh.ConnectNodes(i, newNodes[edgeId][1]);
-                connectNodesAction->Add(std::move(connectionAction1));
-
-                auto [edgeId2, connectionAction2] = mesh.ConnectNodes(i, newNodes[edgeId][3]);
-                connectNodesAction->Add(std::move(connectionAction2));
+                if (mesh.FindEdgeWithLinearSearch(i, newNode) == constants::missing::uintValue)
+                {
+                    auto [newEdgeId, connectionAction] = mesh.ConnectNodes(i, newNode);
+                    connectNodesAction->Add(std::move(connectionAction));
+                }
             }
         }
     }
-- 
2.43.0


From 61cf7c81de332d0113935826f5171f693c383dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:47 +0000
Subject: [PATCH 051/119] fix: Casulli de-refinement removes edges that
 collapsed to a single node

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 8745003..d65b9ed 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -54,6 +54,15 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 
     if (DoDeRefinement(mesh, polygon))
     {
+        // Remove edges that have been collapsed to a single node
+        for (UInt edgeId = 0; edgeId < mesh.GetNumEdges(); ++edgeId)
+        {
+            if (Edge& edge = mesh.GetEdge(edgeId); edge.first == edge.second)
+            {
+                edge = {constants::missing::uintValue, constants::missing::uintValue};
+            }
+        }
+
         mesh.DeleteInvalidNodesAndEdges();
         mesh.Administrate();
     }
-- 
2.43.0


From 83e6f42ad3c2a9faecbf65c637341c8bf885d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:28 +0000
Subject: [PATCH 052/119] fix: merging nodes of a spherical mesh applies the
 merging distance as a length

---
 libs/MeshKernel/src/Mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index fc80281..e181659 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -451,7 +451,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
             for (UInt j = 0; j < nodesRtree->GetQueryResultSize(); j++)
             {
                 const auto nodeIndexInFilteredNodes = nodesRtree->GetQueryResult(j);
-                if (nodeIndexInFilteredNodes != i)
+
+                // The search tree of a spherical mesh works in degrees, the merging distance is a length
+                const bool isWithinDistance = m_projection == Projection::cartesian ||
+                                              ComputeDistance(filteredNodes[i], filteredNodes[nodeIndexInFilteredNodes], m_projection) <= mergingDistance;
+
+                if (nodeIndexInFilteredNodes != i && isWithinDistance)
                 {
                     undoAction->Add(MergeTwoNodes(originalNodeIndices[i], originalNodeIndices[nodeIndexInFilteredNodes]));
                     nodesRtree->DeleteNode(i);
-- 
2.43.0


From 703fe2cc601668a1795ab90b6d510ff7be6f875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:52 +0000
Subject: [PATCH 053/119] fix: the search trees follow the removal of
 unconnected and invalid nodes and edges

---
 libs/MeshKernel/src/Mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index e181659..9e08dbf 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -172,6 +172,11 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
         {
             if (undoAction == nullptr)
             {
+                if (m_nodes[n].IsValid())
+                {
+                    SetAllRTreesRequireUpdate();
+                }
+
                 m_nodes[n].SetInvalid();
             }
             else
@@ -244,6 +249,9 @@ void Mesh::DeleteInvalidNodesAndEdges()
     const auto endEdgeVector = std::remove_if(m_edges.begin(), m_edges.end(), [](const Edge& e)
                                               { return e.first == constants::missing::uintValue || e.second == constants::missing::uintValue; });
     m_edges.erase(endEdgeVector, m_edges.end());
+
+    // The nodes and edges have been renumbered
+    SetAllRTreesRequireUpdate();
 }
 
 void Mesh::SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction)
-- 
2.43.0


From 18b5fb2feaa09b3aa56edfa756640d63c4fcbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:52 +0000
Subject: [PATCH 054/119] fix: curvilinear edges and faces with missing nodes
 are not found by location queries

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index fc04068..8f73637 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1310,7 +1310,17 @@ std::vector<meshkernel::Point> CurvilinearGrid::ComputeEdgesCenters() const
     {
         const auto first = edgeIndex[0];
         const auto second = edgeIndex[1];
-        result[index] = (GetNode(first.m_n, first.m_m) + GetNode(second.m_n, second.m_m)) * 0.5;
+        const auto& firstNode = GetNode(first.m_n, first.m_m);
+        const auto& secondNode = GetNode(second.m_n, second.m_m);
+
+        if (firstNode.IsValid() && secondNode.IsValid())
+        {
+            result[index] = (firstNode + secondNode) * 0.5;
+        }
+        else
+        {
+            result[index].SetInvalid();
+        }
         index++;
     }
 
@@ -1465,6 +1475,14 @@ std::vector<meshkernel::Point> CurvilinearGrid::ComputeFaceCenters() const
     {
         for (UInt m = 0; m < NumM() - 1; m++)
         {
+            if (!GetNode(n, m).IsValid() || !GetNode(n, m + 1).IsValid() ||
+                !GetNode(n + 1, m + 1).IsValid() || !GetNode(n + 1, m).IsValid())
+            {
+                // No face here
+                result.emplace_back(constants::missing::doubleValue, constants::missing::doubleValue);
+                continue;
+            }
+
             Point massCenter{0.0, 0.0};
 
             massCenter += GetNode(n, m);
-- 
2.43.0


From b73af244867c83e1a336be4265bd4038dae0ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:00 +0000
Subject: [PATCH 055/119] fix: mesh2d property queries administrate the mesh
 before reading its connectivity

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 072cbb4..ce932e7 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1198,6 +1198,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto hangingEdges = meshKernelState[meshKernelId].m_mesh2d->GetHangingEdges();
             for (size_t i = 0; i < hangingEdges.size(); ++i)
             {
@@ -1488,6 +1489,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetOrthogonality();
 
             if (static_cast<size_t>(geometryList.num_coordinates) != result.size())
@@ -1524,6 +1526,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
+
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             switch (propertyValueEnum)
             {
@@ -1576,6 +1580,8 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            mesh2d->Administrate();
+
             const auto propertyValueEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             dimension = -1;
             switch (propertyValueEnum)
@@ -1614,6 +1620,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto result = meshKernelState[meshKernelId].m_mesh2d->GetSmoothness();
 
             for (auto i = 0; i < geometryList.num_coordinates; ++i)
@@ -2563,6 +2570,7 @@ namespace meshkernelapi
             {
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
@@ -2608,6 +2616,7 @@ namespace meshkernelapi
                 throw meshkernel::ConstraintError("The 2d mesh contains no nodes.");
             }
 
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto filterEnum = static_cast<meshkernel::Mesh2D::Property>(propertyValue);
             const auto filterMask = meshKernelState[meshKernelId].m_mesh2d->FilterBasedOnMetric(meshkernel::Location::Faces,
                                                                                                 filterEnum,
-- 
2.43.0


From 369a51eeeae1873b5aaa04d650848466ab20c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:00 +0000
Subject: [PATCH 056/119] fix: the lengths of deleted edges are missing values

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9e08dbf..7be6a3b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -572,7 +572,7 @@ std::unique_ptr<meshkernel::DeleteNodeAction> Mesh::DeleteNode(UInt node)
 void Mesh::ComputeEdgesLengths()
 {
     auto const numEdges = GetNumEdges();
-    m_edgeLengths.resize(numEdges, constants::missing::doubleValue);
+    m_edgeLengths.assign(numEdges, constants::missing::doubleValue);
 
     // TODO could be openmp loop
     for (UInt e = 0; e < numEdges; e++)
-- 
2.43.0


From c99121c710fdd65d8ce3bcf9a0e1cfcf090f878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:00 +0000
Subject: [PATCH 057/119] fix: the face polygons dimension is zero when no face
 has the requested number of edges

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index ce932e7..e0978e8 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2541,6 +2541,7 @@ namespace meshkernelapi
                 }
                 numMatchingFaces += 1;
             }
+            geometryListDimension = 0;
             if (numMatchingFaces > 0)
             {
                 geometryListDimension = (numEdges + 2) * (numMatchingFaces - 1) + numEdges + 1;
-- 
2.43.0


From 2110fbacf7a97a9cb3689af50791a1b4532e29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:10 +0000
Subject: [PATCH 058/119] fix: selecting nodes with a polygon never selects
 deleted nodes

---
 libs/MeshKernel/src/Mesh2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 8afa92b..3cc9b19 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -2086,7 +2086,7 @@ std::vector<int> Mesh2D::NodeMaskFromPolygon(const Polygons& polygon, bool insid
             isInPolygon = !isInPolygon;
         }
         nodeMask[i] = 0;
-        if (isInPolygon)
+        if (isInPolygon && m_nodes[i].IsValid())
         {
             nodeMask[i] = 1;
         }
-- 
2.43.0


From 1ac61e7397de636864458fc534832e73f734c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:10 +0000
Subject: [PATCH 059/119] fix: a point on the extension of an edge is not
 inside the polygon

---
 libs/MeshKernel/src/Operations.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index df7ddba..3171be2 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -228,8 +228,14 @@ namespace meshkernel
 
                 if (IsEqual(crossProductValue, 0.0))
                 {
-                    // point on the line
-                    return true;
+                    // check if the point is on the segment, or on its extension
+                    const auto [minX, maxX] = std::minmax(polygonNodes[n].x, polygonNodes[n + 1].x);
+                    const auto [minY, maxY] = std::minmax(polygonNodes[n].y, polygonNodes[n + 1].y);
+
+                    if (point.x >= minX && point.x <= maxX && point.y >= minY && point.y <= maxY)
+                    {
+                        return true;
+                    }
                 }
 
                 if (polygonNodes[n].y <= point.y) // an upward crossing
-- 
2.43.0


From 828038f5d9167692dee4ab911b2ce33fbea4879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:10 +0000
Subject: [PATCH 060/119] fix: a polygon edge in the plane of the test
 direction, or its extension, does not make every point inside (spherical
 accurate)

---
 libs/MeshKernel/src/Operations.cpp | 4 ++--
 libs/MeshKernel/src/Polygon.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index 3171be2..dc46c84 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -306,12 +306,12 @@ namespace meshkernel
                     zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
                 }
 
-                if (IsEqual(zeta, 0.0))
+                if (std::abs(D) > 0.0 && xi >= 0.0 && eta >= 0.0 && IsEqual(zeta, 0.0))
                 {
                     return true;
                 }
 
-                if (xi >= 0.0 && eta >= 0.0 && zeta >= 0.0)
+                if (std::abs(D) > 0.0 && xi >= 0.0 && eta >= 0.0 && zeta >= 0.0)
                 {
                     inside = 1 - inside;
                 }
diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a8814be..bd93a89 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -170,12 +170,12 @@ bool meshkernel::Polygon::ContainsSphericalAccurate(const Point& point) const
             zeta = -InnerProduct(xiXxip1, pointCartesian3D) / D;
         }
 
-        if (IsEqual(zeta, 0.0))
+        if (std::abs(D) > 0.0 && xi >= 0.0 && eta >= 0.0 && IsEqual(zeta, 0.0))
         {
             return true;
         }
 
-        if (xi >= 0.0 && eta >= 0.0 && zeta >= 0.0)
+        if (std::abs(D) > 0.0 && xi >= 0.0 && eta >= 0.0 && zeta >= 0.0)
         {
             inside = 1 - inside;
         }
-- 
2.43.0


From 5f2ab6355a44e39a854b156527ae7cf5bc32cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:51 +0000
Subject: [PATCH 061/119] fix: the points included in a polygon are reported
 for every given point

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index e0978e8..7673892 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2977,13 +2977,13 @@ namespace meshkernelapi
             }
             auto const polygonVector = ConvertGeometryListToPointVector(selectingPolygon);
 
-            auto const points = ConvertGeometryListToPointVector(polygonToSelect);
-
             const meshkernel::Polygons localPolygon(polygonVector, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            for (size_t i = 0; i < points.size(); ++i)
+            // One result for each point to select, also for consecutive points with the same coordinates
+            for (int i = 0; i < polygonToSelect.num_coordinates; ++i)
             {
-                selectionResults.values[i] = localPolygon.IsPointInPolygon(points[i], 0) ? 1.0 : 0.0;
+                const meshkernel::Point point(polygonToSelect.coordinates_x[i], polygonToSelect.coordinates_y[i]);
+                selectionResults.values[i] = localPolygon.IsPointInPolygon(point, 0) ? 1.0 : 0.0;
             }
         }
         catch (...)
-- 
2.43.0


From 7ffe798221cbd22f285911e831f15e323767f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:23 +0000
Subject: [PATCH 062/119] fix: count only the non-hanging edges of a face when
 refining it

---
 libs/MeshKernel/src/MeshRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index 623e4ca..bf7ba57 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -640,7 +640,7 @@ std::unique_ptr<meshkernel::UndoAction> MeshRefinement::RefineFacesBySplittingEd
             }
 
             // check if start of this link is hanging
-            if (m_brotherEdges[edgeIndex] != firstEdgeIndex || firstEdgeIndex != constants::missing::uintValue)
+            if (m_brotherEdges[edgeIndex] != firstEdgeIndex || m_brotherEdges[edgeIndex] == constants::missing::uintValue)
             {
                 nonHangingEdges.emplace_back(e);
             }
-- 
2.43.0


From 2ab4f1ec30a0c78e9410d27f3902318a02190bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:29 +0000
Subject: [PATCH 063/119] fix: refine faces of six edges instead of stopping
 half-way

---
 libs/MeshKernel/src/MeshRefinement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index bf7ba57..3b1daae 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -634,7 +634,7 @@ std::unique_ptr<meshkernel::UndoAction> MeshRefinement::RefineFacesBySplittingEd
                 notHangingFaceNodes.emplace_back(m_edgeMask[edgeIndex]);
             }
 
-            if (notHangingFaceNodes.size() >= Mesh::m_maximumNumberOfNodesPerFace)
+            if (notHangingFaceNodes.size() > Mesh::m_maximumNumberOfNodesPerFace)
             {
                 return refineFacesAction;
             }
-- 
2.43.0


From 3ae991c7333eb30339216dd3845303b9914f16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:57 +0000
Subject: [PATCH 064/119] fix: join the two split nodes of a triangle by one
 edge

---
 libs/MeshKernel/src/MeshRefinement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index 3b1daae..a34d710 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -725,7 +725,9 @@ std::unique_ptr<meshkernel::UndoAction> MeshRefinement::RefineFacesBySplittingEd
         }
         else
         {
-            for (UInt n = 0; n < notHangingFaceNodes.size(); ++n)
+            // two nodes are joined by a single edge
+            const UInt numConnections = notHangingFaceNodes.size() == 2 ? 1 : static_cast<UInt>(notHangingFaceNodes.size());
+            for (UInt n = 0; n < numConnections; ++n)
             {
                 const auto nn = NextCircularForwardIndex(n, static_cast<UInt>(notHangingFaceNodes.size()));
                 auto [edgeId, action] = m_mesh.ConnectNodes(notHangingFaceNodes[n], notHangingFaceNodes[nn]);
-- 
2.43.0


From 94826a8739cf3fec2cb5243120bbf3c0cac9e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:52 +0000
Subject: [PATCH 065/119] fix: judge each quadrilateral's edges afresh when
 marking edges for refinement

---
 libs/MeshKernel/src/MeshRefinement.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index a34d710..aec07b6 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -1193,6 +1193,7 @@ void MeshRefinement::ComputeEdgesRefinementMask()
             {
                 // number the links in the cell, links that share a hanging node will have the same number
                 UInt num = 0;
+                std::ranges::fill(isQuadEdge, 0);
                 for (UInt n = 0; n < numFaceNodes; n++)
                 {
                     const auto edgeIndex = m_mesh.m_facesEdges[f][n];
@@ -1223,18 +1224,18 @@ void MeshRefinement::ComputeEdgesRefinementMask()
                 }
 
                 UInt numEdgesToRefine = 0;
-                UInt firstEdgeIndex = 0;
-                UInt secondEdgeIndex = 0;
+                UInt firstEdgeIndex = constants::missing::uintValue;
+                UInt secondEdgeIndex = constants::missing::uintValue;
                 for (UInt i = 0; i < constants::geometric::numNodesInQuadrilateral; i++)
                 {
                     if (isQuadEdge[i] != 0)
                     {
                         numEdgesToRefine++;
-                        if (firstEdgeIndex == 0)
+                        if (firstEdgeIndex == constants::missing::uintValue)
                         {
                             firstEdgeIndex = i;
                         }
-                        else if (secondEdgeIndex == 0)
+                        else if (secondEdgeIndex == constants::missing::uintValue)
                         {
                             secondEdgeIndex = i;
                         }
-- 
2.43.0


From 7458b4358058fad15bce4da2c75cee6c01868001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 066/119] fix: the type of a curvilinear boundary grid line is
 not read from beyond the grid

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 8f73637..26d0f61 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -844,7 +844,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     // Corner nodes
     if (firstNode.m_m == secondNode.m_m) // Left or Right
     {
-        if (firstNode.m_m + 1 < m_gridNodes.cols() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
+        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
         {
             return BoundaryGridLineType::Left;
         }
@@ -852,7 +852,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     }
     if (firstNode.m_n == secondNode.m_n) // Bottom or top
     {
-        if (firstNode.m_n + 1 < m_gridNodes.rows() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
+        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
         {
             return BoundaryGridLineType::Bottom;
         }
-- 
2.43.0


From 36e81986bdd4a893f0ce1039e1ef241a720366b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 067/119] fix: interpolate to the locations of the current mesh

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7673892..45cebf6 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5274,6 +5274,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            // The interpolation is done on the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             auto sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
             auto const averagingMethod = static_cast<meshkernel::AveragingInterpolation::Method>(averagingMethodType);
@@ -5332,6 +5335,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The mesh is empty.");
             }
 
+            // The interpolation is done at the locations of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Locations
             auto const sampleValues = ConvertGeometryListToSampleVector(samples);
             auto const meshLocation = static_cast<meshkernel::Location>(locationType);
-- 
2.43.0


From 6addf38a59de9240f11eb07bc268480aa29874d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 068/119] fix: an edge without faces does not shift the faces
 sorted around a node

---
 libs/MeshKernel/src/Mesh2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 3cc9b19..4349392 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1465,6 +1465,7 @@ std::vector<meshkernel::UInt> Mesh2D::SortedFacesAroundNode(UInt node) const
         // no faces for this edge
         if (m_edgesNumFaces[firstEdge] == 0)
         {
+            result.emplace_back(constants::missing::uintValue);
             continue;
         }
 
-- 
2.43.0


From 64ab29e3b0c0463b3927194954c61cc2de533d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 069/119] fix: deleted nodes and edges and nodes without dual
 face get no averaged value

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..8522fc3 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -77,6 +77,12 @@ void AveragingInterpolation::Compute()
         std::vector<Point> dualFacePolygon;
         for (UInt n = 0; n < m_mesh.GetNumNodes(); ++n)
         {
+            // deleted nodes, and nodes with less than two edges, have no dual face
+            if (!m_mesh.Node(n).IsValid() || m_mesh.m_nodesNumEdges[n] < 2)
+            {
+                continue;
+            }
+
             m_mesh.MakeDualFace(n, m_relativeSearchRadius, dualFacePolygon);
             const auto result = ComputeOnPolygon(dualFacePolygon, m_mesh.Node(n));
             m_nodeResults[n] = result;
@@ -93,6 +99,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
-- 
2.43.0


From 6d854bfd073fd67858b4b9ab2ed548778f887830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 070/119] fix: inverse distance averaging compares the number
 of samples, not the sum of the weights, with the minimum number

---
 .../AveragingStrategies/InverseWeightedAveragingStrategy.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
index 6582106..4890b93 100644
--- a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
@@ -47,7 +47,7 @@ namespace meshkernel::averaging
             result += weight * samples[i].value;
         }
 
-        return wall >= static_cast<double>(m_minNumSamples) ? result / wall : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumSamples ? result / wall : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From f8fc4c6e2b8e08de31fe4ac87fd40fbf904d5701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 071/119] fix: the average of no samples is missing

---
 .../src/AveragingStrategies/SimpleAveragingStrategy.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
index bfe8051..c93916c 100644
--- a/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp
@@ -40,7 +40,7 @@ namespace meshkernel::averaging
         auto sumSampleValue = [](double value, const Sample& sample)
         { return value + sample.value; };
         double result = std::accumulate(samples.begin(), samples.end(), 0.0, sumSampleValue);
-        return samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
+        return !samples.empty() && samples.size() >= m_minNumPoints ? result / static_cast<double>(samples.size()) : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From 444ed5a84774a0319b795a2b8cc020f63a1d9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 072/119] fix: the search polygon of averaging is enlarged once
 with the relative search radius

---
 .../include/MeshKernel/AveragingInterpolation.hpp    |  3 +--
 libs/MeshKernel/src/AveragingInterpolation.cpp       | 12 ++++--------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/AveragingInterpolation.hpp b/libs/MeshKernel/include/MeshKernel/AveragingInterpolation.hpp
index feade39..7807b7f 100644
--- a/libs/MeshKernel/include/MeshKernel/AveragingInterpolation.hpp
+++ b/libs/MeshKernel/include/MeshKernel/AveragingInterpolation.hpp
@@ -123,9 +123,8 @@ namespace meshkernel
 
         /// @brief Generate the search polygon from an input polygon
         /// @param[in]  polygon            The input polygon
-        /// @param[in]  interpolationPoint The interpolation point
         /// @return The search polygon
-        [[nodiscard]] std::vector<Point> GetSearchPolygon(std::vector<Point> const& polygon, Point const& interpolationPoint) const;
+        [[nodiscard]] std::vector<Point> GetSearchPolygon(std::vector<Point> const& polygon) const;
 
         /// @brief Computes the average value from the neighbors using a strategy
         /// param[in]  strategy            The input strategy
diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 8522fc3..1be8eb2 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -150,14 +150,10 @@ void AveragingInterpolation::Compute()
     }
 }
 
-std::vector<meshkernel::Point> AveragingInterpolation::GetSearchPolygon(std::vector<Point> const& polygon, Point const& interpolationPoint) const
+std::vector<meshkernel::Point> AveragingInterpolation::GetSearchPolygon(std::vector<Point> const& polygon) const
 {
-    std::vector<Point> searchPolygon(polygon.size());
-    std::ranges::transform(std::begin(polygon),
-                           std::end(polygon),
-                           begin(searchPolygon),
-                           [&](Point const& p)
-                           { return p * m_relativeSearchRadius + interpolationPoint * (1.0 - m_relativeSearchRadius); });
+    // The polygon has already been enlarged with the relative search radius
+    std::vector<Point> searchPolygon(polygon);
 
     if (m_mesh.m_projection == Projection::spherical)
     {
@@ -237,7 +233,7 @@ double AveragingInterpolation::ComputeOnPolygon(const std::vector<Point>& polygo
         throw std::invalid_argument("AveragingInterpolation::ComputeOnPolygon invalid interpolation point");
     }
 
-    auto const searchPolygon = GetSearchPolygon(polygon, interpolationPoint);
+    auto const searchPolygon = GetSearchPolygon(polygon);
 
     double const searchRadiusSquared = GetSearchRadiusSquared(searchPolygon, interpolationPoint);
 
-- 
2.43.0


From 7cce335cce3f9498375afda1894e367ddbb1b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:28 +0000
Subject: [PATCH 073/119] fix: triangulation interpolation gives a value on the
 edges between triangles

---
 .../src/TriangulationInterpolation.cpp        | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/TriangulationInterpolation.cpp b/libs/MeshKernel/src/TriangulationInterpolation.cpp
index fb4abc3..29e5a18 100644
--- a/libs/MeshKernel/src/TriangulationInterpolation.cpp
+++ b/libs/MeshKernel/src/TriangulationInterpolation.cpp
@@ -114,6 +114,7 @@ void TriangulationInterpolation::Compute()
         // search for the triangle where the location is included
         bool isInTriangle = false;
         int numFacesSearched = 0;
+        UInt previousTriangle = triangle;
         while (!isInTriangle && numFacesSearched < 2 * triangulationWrapper.GetNumFaces() && triangle != constants::missing::uintValue && static_cast<int>(triangle) < triangulationWrapper.GetNumFaces())
         {
 
@@ -127,6 +128,7 @@ void TriangulationInterpolation::Compute()
 
             // proceed to next triangle, which is adjacent to the edge that is cut by the line from the current triangle to the point location
             numFacesSearched++;
+            bool isEdgeCrossed = false;
             for (UInt i = 0; i < constants::geometric::numNodesInTriangle; ++i)
             {
                 const auto edge = triangulationWrapper.GetFaceEdge(triangle, i);
@@ -153,10 +155,28 @@ void TriangulationInterpolation::Compute()
 
                 if (areCrossing)
                 {
-                    triangle = otherTriangle;
+                    isEdgeCrossed = otherTriangle != previousTriangle;
+                    if (isEdgeCrossed)
+                    {
+                        previousTriangle = triangle;
+                        triangle = otherTriangle;
+                    }
                     break;
                 }
             }
+
+            // no other triangle can be reached: the location can be on an edge, outside of the triangles on both sides by rounding only
+            if (!isEdgeCrossed)
+            {
+                for (UInt i = 0; i < constants::geometric::numNodesInTriangle && !isInTriangle; ++i)
+                {
+                    const auto& first = triangles[triangle][i];
+                    const auto& second = triangles[triangle][i + 1];
+                    const auto [distance, normal, ratio] = DistanceFromLine(m_locations[n], first, second, m_projection);
+                    isInTriangle = distance <= 1.0e-8 * ComputeDistance(first, second, m_projection);
+                }
+                break;
+            }
         }
 
         if (isInTriangle && triangle != constants::missing::uintValue && static_cast<int>(triangle) < triangulationWrapper.GetNumFaces())
-- 
2.43.0


From ce2abd4599317024f89ae31e5e08f8321a859763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 074/119] fix: the contacts are computed with the faces of the
 current mesh2d

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 45cebf6..7908968 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3647,6 +3647,9 @@ namespace meshkernelapi
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            // The contacts refer to the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Execute
             auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
@@ -3679,6 +3682,9 @@ namespace meshkernelapi
             auto meshKernel1DNodeMask = ConvertIntegerArrayToBoolVector(oneDNodeMask,
                                                                         num1DNodes);
 
+            // The contacts refer to the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Execute
             auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
@@ -3717,6 +3723,9 @@ namespace meshkernelapi
             const meshkernel::Polygons meshKernelPolygons(polygonPoints,
                                                           meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            // The contacts refer to the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Execute
             auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
@@ -3753,6 +3762,9 @@ namespace meshkernelapi
             // Convert polygon date from GeometryList to Point vector
             auto meshKernelPoints = ConvertGeometryListToPointVector(points);
 
+            // The contacts refer to the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Execute
             auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
@@ -3853,6 +3865,9 @@ namespace meshkernelapi
             auto const polygonPoints = ConvertGeometryListToPointVector(polygons);
             const meshkernel::Polygons meshKernelPolygons(polygonPoints, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
+            // The contacts refer to the faces of the current mesh
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Execute
             auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
             contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
-- 
2.43.0


From 65a45f88cf66e3b0e06f38ad4f3846c2911ce950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 075/119] fix: contacts with points connect only 1d nodes
 selected by the mask

---
 libs/MeshKernel/src/Contacts.cpp | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..6d8494b 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -9,6 +9,23 @@
 
 using meshkernel::Contacts;
 
+namespace
+{
+    /// @brief Gets the nodes with the ones not selected by the mask set to missing, so that they keep their index
+    std::vector<meshkernel::Point> SelectNodes(const std::vector<meshkernel::Point>& nodes, const std::vector<bool>& nodeMask)
+    {
+        std::vector<meshkernel::Point> selectedNodes(nodes);
+        for (size_t n = 0; n < selectedNodes.size(); ++n)
+        {
+            if (!nodeMask[n])
+            {
+                selectedNodes[n].SetInvalid();
+            }
+        }
+        return selectedNodes;
+    }
+} // namespace
+
 Contacts::Contacts(Mesh1D& mesh1d, Mesh2D& mesh2d)
     : m_mesh1d(mesh1d),
       m_mesh2d(mesh2d)
@@ -331,8 +348,14 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
 
     Validate();
 
-    m_mesh1d.BuildTree(Location::Nodes);
-    auto& rtree = m_mesh1d.GetRTree(Location::Nodes);
+    // only the nodes selected by the mask can be connected
+    const auto rtree = RTreeFactory::Create(m_mesh1d.m_projection);
+    rtree->BuildTree(SelectNodes(m_mesh1d.Nodes(), oneDNodeMask));
+    if (rtree->Empty())
+    {
+        m_areComputed = true;
+        return;
+    }
 
     // find the face indices containing the 1d points
     const auto pointsFaceIndices = m_mesh2d.PointFaceIndices(points);
@@ -347,16 +370,16 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
         }
 
         // get the closest 1d node
-        rtree.SearchNearestPoint(points[i]);
+        rtree->SearchNearestPoint(points[i]);
 
         // if nothing found continue
-        if (rtree.GetQueryResultSize() == 0)
+        if (rtree->GetQueryResultSize() == 0)
         {
             continue;
         }
 
         // form the 1d-2d contact
-        m_mesh1dIndices.emplace_back(rtree.GetQueryResult(0));
+        m_mesh1dIndices.emplace_back(rtree->GetQueryResult(0));
         m_mesh2dIndices.emplace_back(pointsFaceIndices[i]);
     }
 
-- 
2.43.0


From 699adf1b095b5e37048ac5fe8abedc0c590fc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 076/119] fix: contacts with polygons find the nearest 1d node
 among those selected by the mask

---
 libs/MeshKernel/src/Contacts.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 6d8494b..011ce80 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -296,7 +296,14 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     std::vector<double> minimalDistance(polygons.GetNumPolygons(), constants::missing::doubleValue);
     std::vector<UInt> closest1dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
     std::vector<UInt> closest2dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
-    m_mesh1d.BuildTree(Location::Nodes);
+    // only the nodes selected by the mask can be connected
+    const auto rtree = RTreeFactory::Create(m_mesh1d.m_projection);
+    rtree->BuildTree(SelectNodes(m_mesh1d.Nodes(), oneDNodeMask));
+    if (rtree->Empty())
+    {
+        m_areComputed = true;
+        return;
+    }
 
     for (UInt faceIndex = 0; faceIndex < m_mesh2d.GetNumFaces(); ++faceIndex)
     {
@@ -307,8 +314,13 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
         }
         const auto polygonIndex = facePolygonIndex[faceIndex];
         const auto faceMassCenter = m_mesh2d.m_facesMassCenters[faceIndex];
-        const auto close1DNodeIndex = m_mesh1d.FindLocationIndex(faceMassCenter, Location::Nodes, oneDNodeMask);
+        rtree->SearchNearestPoint(faceMassCenter);
+        if (!rtree->HasQueryResults())
+        {
+            continue;
+        }
 
+        const auto close1DNodeIndex = rtree->GetQueryResult(0);
         const auto close1DNode = m_mesh1d.Node(close1DNodeIndex);
         const auto squaredDistance = ComputeSquaredDistance(faceMassCenter, close1DNode, m_mesh2d.m_projection);
         // if it is the first found node of this polygon or
-- 
2.43.0


From 3f0925d7f7228d681920c0d6f9e15c0dc1ca36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 077/119] fix: contacts with polygons make no contact for a
 polygon without faces

---
 libs/MeshKernel/src/Contacts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 011ce80..263d6e5 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -337,6 +337,12 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     // connect 1D nodes to closest 2d node in a polygon
     for (UInt polygonIndex = 0; polygonIndex < polygons.GetNumPolygons(); ++polygonIndex)
     {
+        // no face in the polygon, nothing to connect
+        if (closest2dNodeIndices[polygonIndex] == constants::missing::uintValue)
+        {
+            continue;
+        }
+
         m_mesh1dIndices.emplace_back(closest1dNodeIndices[polygonIndex]);
         m_mesh2dIndices.emplace_back(closest2dNodeIndices[polygonIndex]);
     }
-- 
2.43.0


From 3c3fd73b48631809f42677ff7bb1b57a03ba853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:31 +0000
Subject: [PATCH 078/119] fix: the face including a point is found also if
 another face has the nearest edge center

---
 libs/MeshKernel/src/Mesh2D.cpp | 47 ++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 4349392..b7c035e 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1891,26 +1891,53 @@ std::vector<meshkernel::UInt> Mesh2D::PointFaceIndices(const std::vector<Point>&
     std::vector<Point> polygonNodesCache;
     BuildTree(Location::Edges);
 
+    const auto findFaceOfEdge = [this, &polygonNodesCache](const Point& point, UInt edgeIndex)
+    {
+        for (UInt e = 0; e < m_edgesNumFaces[edgeIndex]; ++e)
+        {
+            const auto faceIndex = m_edgesFaces[edgeIndex][e];
+            ComputeFaceClosedPolygon(faceIndex, polygonNodesCache);
+            if (IsPointInPolygonNodes(point, polygonNodesCache, m_projection))
+            {
+                return faceIndex;
+            }
+        }
+        return constants::missing::uintValue;
+    };
+
+    // Each point of a face lies within this distance from the center of one of the edges of the face
+    double maxEdgeLength = 0.0;
+    for (const auto& [first, second] : m_edges)
+    {
+        if (first != constants::missing::uintValue && second != constants::missing::uintValue)
+        {
+            maxEdgeLength = std::max(maxEdgeLength, ComputeDistance(m_nodes[first], m_nodes[second], m_projection));
+        }
+    }
+    const double searchRadiusSquared = 1.5 * 1.5 * maxEdgeLength * maxEdgeLength;
+
     for (UInt i = 0; i < numPoints; ++i)
     {
         const auto edgeIndex = FindLocationIndex(points[i], Location::Edges);
 
         if (edgeIndex == constants::missing::uintValue)
         {
-            result[i] = constants::missing::uintValue;
             continue;
         }
 
-        for (UInt e = 0; e < m_edgesNumFaces[edgeIndex]; ++e)
+        result[i] = findFaceOfEdge(points[i], edgeIndex);
+
+        if (result[i] != constants::missing::uintValue)
         {
-            const auto faceIndex = m_edgesFaces[edgeIndex][e];
-            ComputeFaceClosedPolygon(faceIndex, polygonNodesCache);
-            const auto isPointInFace = IsPointInPolygonNodes(points[i], polygonNodesCache, m_projection);
-            if (isPointInFace)
-            {
-                result[i] = faceIndex;
-                break;
-            }
+            continue;
+        }
+
+        // The edge with the nearest center is not necessarily an edge of the face including the point
+        auto& rtree = GetRTree(Location::Edges);
+        rtree.SearchPoints(points[i], searchRadiusSquared);
+        for (UInt e = 0; e < rtree.GetQueryResultSize() && result[i] == constants::missing::uintValue; ++e)
+        {
+            result[i] = findFaceOfEdge(points[i], rtree.GetQueryResult(e));
         }
     }
     return result;
-- 
2.43.0


From 3e5738c3ec54b78ed7fda8537be7683f57027a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 079/119] fix: single contacts that share a node or a face do
 not cross each other

---
 libs/MeshKernel/src/Contacts.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 263d6e5..3f4629a 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -112,6 +112,11 @@ bool Contacts::IsContactIntersectingMesh1d(UInt node,
 {
     for (UInt e = 0; e < m_mesh1d.GetNumEdges(); ++e)
     {
+        // an edge starting at the node only touches the contact
+        if (m_mesh1d.GetEdge(e).first == node || m_mesh1d.GetEdge(e).second == node)
+        {
+            continue;
+        }
 
         const auto [areSegmentCrossing,
                     intersectionPoint,
@@ -138,6 +143,12 @@ bool Contacts::IsContactIntersectingContact(UInt node, UInt face) const
 {
     for (UInt i = 0; i < m_mesh1dIndices.size(); ++i)
     {
+        // contacts with the same node or the same face only touch each other there
+        if (m_mesh1dIndices[i] == node || m_mesh2dIndices[i] == face)
+        {
+            continue;
+        }
+
         const auto [areSegmentCrossing,
                     intersectionPoint,
                     crossProduct,
-- 
2.43.0


From a066eeea00b425f2329a023bf14ff05a53282ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:43 +0000
Subject: [PATCH 080/119] fix: the discretization of a polyline passes over
 segments without chainages

---
 libs/MeshKernel/src/Operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index dc46c84..a611744 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1631,7 +1631,7 @@ namespace meshkernel
         std::sort(chainages.begin(), chainages.end());
         for (auto const& chainage : chainages)
         {
-            if (chainage > polylineNodalCoordinate[curentNodalIndex + 1])
+            while (curentNodalIndex + 2 < polylineNodalCoordinate.size() && chainage > polylineNodalCoordinate[curentNodalIndex + 1])
             {
                 curentNodalIndex++;
             }
-- 
2.43.0


From d598cad98c0558ab086caa2e84501392298bdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:43 +0000
Subject: [PATCH 081/119] fix: the 1d mesh of a network has the edges of all
 polylines

---
 libs/MeshKernel/src/Mesh1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..3b658a6 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -62,7 +62,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
             edges.emplace_back(i, i + 1);
         }
         // Poly lines are separated. If the end of one polyline coincides with the start of another, the two nodes will be merged later on.
-        numNodes = numNodes + static_cast<UInt>(nodes.size());
+        numNodes = static_cast<UInt>(nodes.size());
     }
 
     // Sets the edges, nodes and projections
-- 
2.43.0


From 5c8960240bf4e870f6d7b93c5e60896ec75ba4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:43 +0000
Subject: [PATCH 082/119] fix: deleted edges stay deleted in joined meshes

---
 libs/MeshKernel/src/Mesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 7be6a3b..d5ea6a4 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1038,8 +1038,9 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
     for (auto e = numEdges; e < numEdges + rhsNumEdges; ++e)
     {
         const auto index = e - numEdges;
-        m_edges[e].first = rhs.m_edges[index].first + numNodes;
-        m_edges[e].second = rhs.m_edges[index].second + numNodes;
+        m_edges[e] = rhs.m_edges[index];
+        IncrementValidValue(m_edges[e].first, numNodes);
+        IncrementValidValue(m_edges[e].second, numNodes);
     }
 
     SetAllRTreesRequireUpdate();
-- 
2.43.0


From 41058d716673f92916d99833950fe8024e645352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:43 +0000
Subject: [PATCH 083/119] fix: a fixed chainage at the start of a polyline does
 not replace its end

---
 libs/MeshKernel/src/Network1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..694bebe 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -73,7 +73,7 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
         double const endChainage = m_chainages[p][1];
 
         double previousChainage = startChainage;
-        bool previousChainageIsAFixedPoint = IsEqual(previousChainage, fixedChainagesByPolyline[p].front()) ? true : false;
+        bool previousChainageIsAFixedPoint = false;
         for (auto const& fixedChainage : fixedChainagesByPolyline[p])
         {
             if (const auto chainageBeforeFixedPoint = fixedChainage - fixedChainagesOffset; chainageBeforeFixedPoint - previousChainage >= minFaceSize && chainageBeforeFixedPoint > startChainage)
-- 
2.43.0


From 981199ce02484f2bbb0c94089602c71ca0545dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 084/119] fix: fixed chainages after offsetted chainages reach
 up to the end of the polyline

---
 libs/MeshKernel/src/Network1D.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index 694bebe..4ffabf1 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -25,6 +25,8 @@
 //
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+
 #include <MeshKernel/Entities.hpp>
 #include <MeshKernel/Network1D.hpp>
 #include <MeshKernel/Operations.hpp>
@@ -69,8 +71,9 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
             continue;
         }
 
-        double const startChainage = m_chainages[p][0];
-        double const endChainage = m_chainages[p][1];
+        auto const [startIterator, endIterator] = std::ranges::minmax_element(m_chainages[p]);
+        double const startChainage = *startIterator;
+        double const endChainage = *endIterator;
 
         double previousChainage = startChainage;
         bool previousChainageIsAFixedPoint = false;
-- 
2.43.0


From fb462119db1feee31653e9d879ebe68167a4ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:06 +0000
Subject: [PATCH 085/119] fix: the edges of faces given with the mesh follow
 the order of the face nodes

---
 libs/MeshKernel/src/Mesh2D.cpp | 39 +++++++++-------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index b7c035e..3d032ca 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -549,49 +549,30 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
 
     std::vector<UInt> local_edges;
     std::vector<Point> local_nodes;
-    std::vector<UInt> local_node_indices;
     for (UInt f = 0; f < m_facesNodes.size(); ++f)
     {
         local_edges.clear();
         local_nodes.clear();
-        local_node_indices.clear();
 
-        auto node = m_facesNodes[f][0];
-        local_nodes.emplace_back(m_nodes[node]);
-        local_node_indices.emplace_back(node);
-        UInt index = 0;
-        while (index < m_nodesEdges[node].size())
+        // each edge of the face connects a node of the face with the next one
+        for (UInt n = 0; n < m_facesNodes[f].size(); ++n)
         {
-            const auto edge = m_nodesEdges[node][index];
-            const auto other_node = OtherNodeOfEdge(m_edges[edge], node);
-            const auto edge_iter = std::find(local_edges.begin(), local_edges.end(), edge);
-            if (std::find(m_facesNodes[f].begin(), m_facesNodes[f].end(), other_node) != m_facesNodes[f].end() &&
-                edge_iter == local_edges.end() &&
-                std::find(local_node_indices.begin(), local_node_indices.end(), other_node) == local_node_indices.end())
-
-            {
-
-                local_edges.emplace_back(edge);
-                local_nodes.emplace_back(m_nodes[other_node]);
-                local_node_indices.emplace_back(other_node);
-                node = other_node;
-                index = 0;
-                continue;
-            }
-            if (other_node == m_facesNodes[f][0] && edge_iter == local_edges.end())
+            const auto node = m_facesNodes[f][n];
+            const auto next_node = m_facesNodes[f][NextCircularForwardIndex(n, static_cast<UInt>(m_facesNodes[f].size()))];
+            const auto edge = FindEdge(node, next_node);
+            if (edge == constants::missing::uintValue)
             {
-                // loop closed
-                local_edges.emplace_back(edge);
-                break;
+                throw AlgorithmError("FindFacesGivenMappings: there is no edge between the face nodes {} and {}.", node, next_node);
             }
 
-            index++;
+            local_edges.emplace_back(edge);
+            local_nodes.emplace_back(m_nodes[node]);
         }
 
         m_facesEdges.emplace_back(local_edges);
         for (const auto& e : local_edges)
         {
-            if (m_edgesNumFaces[e] > 2)
+            if (m_edgesNumFaces[e] >= 2)
             {
                 throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces > 2.");
             }
-- 
2.43.0


From 4185363276b7b44fb18fed0822ef112b09dd2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:39 +0000
Subject: [PATCH 086/119] fix: the search trees of a mesh follow the projection
 of the mesh

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  4 ++++
 libs/MeshKernel/src/Mesh.cpp                | 21 ++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 86c4ec3..eece2ae 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -512,8 +512,12 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
+        Projection m_RTreesProjection = Projection::cartesian;             ///< The projection for which the RTrees have been created
         BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
 
+        /// @brief Create the RTrees for the projection of the mesh
+        void CreateRTrees();
+
         /// @brief Set nodes and edges that are not connected to be invalid.
         void SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction);
 
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d5ea6a4..274379b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -46,10 +46,7 @@ Mesh::Mesh() : Mesh(Projection::cartesian)
 
 Mesh::Mesh(Projection projection) : m_projection(projection)
 {
-
-    m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
-    m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
-    m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+    CreateRTrees();
 }
 
 Mesh::Mesh(const std::vector<Edge>& edges,
@@ -59,10 +56,18 @@ Mesh::Mesh(const std::vector<Edge>& edges,
                                     m_edges(edges)
 
 {
+    CreateRTrees();
+    DeleteInvalidNodesAndEdges();
+}
+
+void Mesh::CreateRTrees()
+{
+    m_RTrees.clear();
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
-    DeleteInvalidNodesAndEdges();
+    m_RTreesProjection = m_projection;
+    SetAllRTreesRequireUpdate();
 }
 
 bool Mesh::NodeAdministration()
@@ -1190,6 +1195,12 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_RTreesProjection != m_projection)
+    {
+        // The projection has been changed, the trees have to search with the distance of the new projection
+        CreateRTrees();
+    }
+
     if (m_boundingBoxCache != boundingBox)
     {
         // The cached bounding box is shared by all the trees
-- 
2.43.0


From 5009bd2adcd9f73e4e8aa6a5da7a98bd324eb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:20 +0000
Subject: [PATCH 087/119] fix: a rectangular mesh on an extension has the
 projection of the state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7908968..c1679f0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1856,8 +1856,7 @@ namespace meshkernelapi
             const auto edges = curvilinearGrid->ComputeEdges();
             const auto nodes = curvilinearGrid->ComputeNodes();
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())),
-                                    meshKernelId);
+            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, projection)), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 053951cf0b30563e42fc922055816701a162b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:20 +0000
Subject: [PATCH 088/119] fix: the empty grid left by the conversion to a
 mesh2d has the projection of the state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c1679f0..25393fb 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4920,7 +4920,7 @@ namespace meshkernelapi
             undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())));
 
             // curvilinear grid must be reset to an empty curvilinear grid
-            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>();
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From f0fe8e8c9f779f11ef26f1db615d6c2b15bef533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 089/119] fix: the orthogonalization of a block of a
 curvilinear grid moves only the nodes inside of the block

---
 .../src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..07f781f 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -268,8 +268,8 @@ void CurvilinearGridOrthogonalization::Solve()
     const double factor = 0.9 * 0.9;
 
     // Only the internal nodes of the orthogonalization box
-    const auto minMInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_m);
-    const auto minNInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_n);
+    const auto minMInternal = m_lowerLeft.m_m + 1;
+    const auto minNInternal = m_lowerLeft.m_n + 1;
 
     const auto maxMInternal = std::min(m_upperRight.m_m, m_grid.NumM() - 1);
     const auto maxNInternal = std::min(m_upperRight.m_n, m_grid.NumN() - 1);
-- 
2.43.0


From cebafbc1b01344c53eaa42f26a3f10d41b806a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 090/119] fix: the orthogonalization of a curvilinear grid
 leaves the boundary nodes at the ends of the block in place

---
 .../CurvilinearGridOrthogonalization.cpp         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 07f781f..e9e48d0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -141,6 +141,14 @@ void CurvilinearGridOrthogonalization::ProjectHorizontalBoundaryGridNodes()
                         continue;
                     }
 
+                    // The coefficients exist only for the faces of the block
+                    const auto faceM = nextVertical == 1 ? m : m - 1;
+                    if (m_orthoEqTerms.atp(nn - 1, faceM) == constants::missing::doubleValue ||
+                        m_orthoEqTerms.atp(nn, faceM) == constants::missing::doubleValue)
+                    {
+                        continue;
+                    }
+
                     const auto leftNode = m_grid.GetNode(nn - 1, m);
                     const auto verticalNode = m_grid.GetNode(nn, m + nextVertical);
                     const auto rightNode = m_grid.GetNode(nn + 1, m);
@@ -221,6 +229,14 @@ void CurvilinearGridOrthogonalization::ProjectVerticalBoundariesGridNodes()
                     {
                         continue;
                     }
+                    // The coefficients exist only for the faces of the block
+                    const auto faceN = nextHorizontal == 1 ? n : n - 1;
+                    if (m_orthoEqTerms.atp(faceN, mm - 1) == constants::missing::doubleValue ||
+                        m_orthoEqTerms.atp(faceN, mm) == constants::missing::doubleValue)
+                    {
+                        continue;
+                    }
+
                     const auto bottomNode = m_grid.GetNode(n, mm - 1);
                     const auto horizontalNode = m_grid.GetNode(n + nextHorizontal, mm);
                     const auto upperNode = m_grid.GetNode(n, mm + 1);
-- 
2.43.0


From 76b03b52d3cf7f328f6d93e0c0a9c2f19000b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:42 +0000
Subject: [PATCH 091/119] fix: inserting a face in a curvilinear grid keeps the
 nodes that exist already

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 26d0f61..def0cb1 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -871,6 +871,15 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
 
     std::unique_ptr<CompoundUndoAction> undoAddEdge = CompoundUndoAction::Create();
 
+    // The nodes that exist already stay where they are
+    auto const addNode = [this, &undoAddEdge](CurvilinearGridNodeIndices const& nodeIndex, Point const& coordinates)
+    {
+        if (!GetNode(nodeIndex).IsValid())
+        {
+            undoAddEdge->Add(MoveNode(nodeIndex, coordinates));
+        }
+    };
+
     m_edgesRTreeRequiresUpdate = true;
 
     if (gridLineType == BoundaryGridLineType::Bottom)
@@ -882,13 +891,13 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
         if (isGridLineAdded)
         {
             undoAddEdge->Add(std::move(addGridLineUndo));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(0, firstNode.m_m), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(0, secondNode.m_m), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(0, firstNode.m_m), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(0, secondNode.m_m), secondNewNodeCoordinates);
         }
         else
         {
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n - 1, firstNode.m_m), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n - 1, secondNode.m_m), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n - 1, firstNode.m_m), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n - 1, secondNode.m_m), secondNewNodeCoordinates);
         }
     }
 
@@ -903,8 +912,8 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
             undoAddEdge->Add(std::move(addGridLineUndo));
         }
 
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n + 1, firstNode.m_m), firstNewNodeCoordinates));
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n + 1, secondNode.m_m), secondNewNodeCoordinates));
+        addNode(CurvilinearGridNodeIndices(firstNode.m_n + 1, firstNode.m_m), firstNewNodeCoordinates);
+        addNode(CurvilinearGridNodeIndices(secondNode.m_n + 1, secondNode.m_m), secondNewNodeCoordinates);
     }
 
     if (gridLineType == BoundaryGridLineType::Left)
@@ -917,13 +926,13 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
         {
             undoAddEdge->Add(std::move(addGridLineUndo));
             // Assign the new coordinates
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, 0), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, 0), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n, 0), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n, 0), secondNewNodeCoordinates);
         }
         else
         {
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m - 1), firstNewNodeCoordinates));
-            undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m - 1), secondNewNodeCoordinates));
+            addNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m - 1), firstNewNodeCoordinates);
+            addNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m - 1), secondNewNodeCoordinates);
         }
     }
 
@@ -938,8 +947,8 @@ meshkernel::UndoActionPtr CurvilinearGrid::AddEdge(CurvilinearGridNodeIndices co
             undoAddEdge->Add(std::move(addGridLineUndo));
         }
 
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m + 1), firstNewNodeCoordinates));
-        undoAddEdge->Add(MoveNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m + 1), secondNewNodeCoordinates));
+        addNode(CurvilinearGridNodeIndices(firstNode.m_n, firstNode.m_m + 1), firstNewNodeCoordinates);
+        addNode(CurvilinearGridNodeIndices(secondNode.m_n, secondNode.m_m + 1), secondNewNodeCoordinates);
     }
 
     if (gridLineType == BoundaryGridLineType::Bottom ||
-- 
2.43.0


From a5455f7cdcdcac2b379ef397571083c922c7d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 092/119] fix: no face is inserted in a curvilinear grid at an
 edge that has faces at both sides

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index def0cb1..823ba4a 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -680,6 +680,20 @@ meshkernel::UndoActionPtr CurvilinearGrid::InsertFace(Point const& point)
     // Compute the grid node types
     ComputeGridNodeTypes();
 
+    // A face can be inserted only at the side of the edge that has no face
+    const auto hasFace = [this](const UInt n, const UInt m)
+    { return n + 1 < NumN() && m + 1 < NumM() && IsFaceMaskValid(n, m); };
+
+    const UInt n = std::min(firstNode.m_n, secondNode.m_n);
+    const UInt m = std::min(firstNode.m_m, secondNode.m_m);
+    const bool isAlongN = firstNode.m_m == secondNode.m_m;
+    const bool hasPreviousFace = isAlongN ? m > 0 && hasFace(n, m - 1) : n > 0 && hasFace(n - 1, m);
+
+    if (hasPreviousFace && hasFace(n, m))
+    {
+        throw std::invalid_argument("CurvilinearGrid::InsertFace: the edge has faces at both sides");
+    }
+
     // Add a new edge
     UndoActionPtr undoAction = AddEdge(firstNode, secondNode);
 
-- 
2.43.0


From 4abae669c19d34edd3fbf86933a1f63d95fd30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 093/119] fix: mirroring a line of a curvilinear grid writes
 next to the line and never over existing nodes

---
 .../CurvilinearGridLineMirror.cpp             | 87 +++++++++----------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index 70aba04..6aeb0d4 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -64,6 +64,35 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     m_grid.ComputeGridNodeTypes();
     auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
 
+    using enum CurvilinearGrid::BoundaryGridLineType;
+
+    const bool isMLine = gridLineType == Bottom || gridLineType == Top;
+    const bool isAtStart = gridLineType == Bottom || gridLineType == Left;
+    const UInt constantCoordinate = m_lines[0].m_constantCoordinate;
+    const UInt numLines = isMLine ? m_grid.NumN() : m_grid.NumM();
+
+    const auto nodeIndex = [isMLine](const UInt line, const UInt i)
+    { return isMLine ? CurvilinearGridNodeIndices(line, i) : CurvilinearGridNodeIndices(i, line); };
+
+    if (isMLine != m_lines[0].IsMGridLine())
+    {
+        throw std::invalid_argument("CurvilinearGridLineMirror::Compute The selected line is not a boundary grid line");
+    }
+
+    // The mirrored nodes must not exist already
+    if (isAtStart ? constantCoordinate > 0 : constantCoordinate + 1 < numLines)
+    {
+        const UInt mirroredLine = isAtStart ? constantCoordinate - 1 : constantCoordinate + 1;
+
+        for (auto i = m_lines[0].m_startCoordinate; i <= m_lines[0].m_endCoordinate; ++i)
+        {
+            if (m_grid.GetNode(nodeIndex(mirroredLine, i)).IsValid())
+            {
+                throw std::invalid_argument("CurvilinearGridLineMirror::Compute The selected line is not a boundary grid line");
+            }
+        }
+    }
+
     auto [addedLine, addGridLineAction] = m_grid.AddGridLineAtBoundary(startNode, endNode);
     m_grid.ComputeGridNodeTypes();
     undoAction->Add(std::move(addGridLineAction));
@@ -71,58 +100,26 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     double const a = 1.0 + m_mirroringFactor;
     double const b = -m_mirroringFactor;
 
-    CurvilinearGridNodeIndices lowerLeft;
-    CurvilinearGridNodeIndices upperRight;
-
-    using enum CurvilinearGrid::BoundaryGridLineType;
+    // A line added at the start shifts the selected line
+    const UInt line = addedLine && isAtStart ? constantCoordinate + 1 : constantCoordinate;
+    const UInt mirroredLine = isAtStart ? line - 1 : line + 1;
+    const UInt innerLine = isAtStart ? line + 1 : line - 1;
 
-    switch (gridLineType)
-    {
-    case Bottom:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {1, m_lines[0].m_endCoordinate + 1};
-        break;
-    case Top:
-        lowerLeft = {m_grid.NumN() - 1, m_lines[0].m_startCoordinate};
-        upperRight = {m_grid.NumN() - 0, m_lines[0].m_endCoordinate + 1};
-        break;
-    case Right:
-        lowerLeft = {m_lines[0].m_startCoordinate, m_grid.NumM() - 1};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
-        break;
-    case Left:
-        lowerLeft = {m_lines[0].m_startCoordinate, 0};
-        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
-        break;
-    default:
-        throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-    }
+    const CurvilinearGridNodeIndices lowerLeft = nodeIndex(mirroredLine, m_lines[0].m_startCoordinate);
+    CurvilinearGridNodeIndices upperRight = nodeIndex(mirroredLine, m_lines[0].m_endCoordinate);
+    ++upperRight.m_n;
+    ++upperRight.m_m;
 
     undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, lowerLeft, upperRight));
 
     for (auto i = m_lines[0].m_startCoordinate; i <= m_lines[0].m_endCoordinate; ++i)
     {
-        if (gridLineType == Bottom)
-        {
-            m_grid.GetNode(0, i) = m_grid.GetNode(1, i) * a +
-                                   m_grid.GetNode(2, i) * b;
-        }
-        if (gridLineType == Top)
-        {
-            auto const last_row = (UInt)m_grid.NumN() - 1;
-            m_grid.GetNode(last_row, i) = m_grid.GetNode(last_row - 1, i) * a +
-                                          m_grid.GetNode(last_row - 2, i) * b;
-        }
-        if (gridLineType == Right)
-        {
-            auto const last_col = (UInt)m_grid.NumM() - 1;
-            m_grid.GetNode(i, last_col) = m_grid.GetNode(i, last_col - 1) * a +
-                                          m_grid.GetNode(i, last_col - 2) * b;
-        }
-        if (gridLineType == Left)
+        const auto& node = m_grid.GetNode(nodeIndex(line, i));
+        const auto& innerNode = m_grid.GetNode(nodeIndex(innerLine, i));
+
+        if (node.IsValid() && innerNode.IsValid())
         {
-            m_grid.GetNode(i, 0) = m_grid.GetNode(i, 1) * a +
-                                   m_grid.GetNode(i, 2) * b;
+            m_grid.GetNode(nodeIndex(mirroredLine, i)) = node * a + innerNode * b;
         }
     }
 
-- 
2.43.0


From 1b7059a0dc10a7e94701c6930dbfff02c66d1c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:21 +0000
Subject: [PATCH 094/119] fix: the orthogonalization of a curvilinear grid
 projects only boundary nodes on the boundary

---
 .../CurvilinearGridOrthogonalization.cpp            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index e9e48d0..1354258 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -136,10 +136,14 @@ void CurvilinearGridOrthogonalization::ProjectHorizontalBoundaryGridNodes()
                     {
                         continue;
                     }
-                    if (m_grid.GetNodeType(n, m) == NodeType::Invalid)
+
+                    // Only the nodes at the bottom and up boundaries, other nodes can lie in between
+                    const auto boundaryNodeType = m_grid.GetNodeType(nn, m);
+                    if (boundaryNodeType != NodeType::Bottom && boundaryNodeType != NodeType::Up)
                     {
                         continue;
                     }
+                    nextVertical = boundaryNodeType == NodeType::Bottom ? 1 : -1;
 
                     // The coefficients exist only for the faces of the block
                     const auto faceM = nextVertical == 1 ? m : m - 1;
@@ -225,10 +229,15 @@ void CurvilinearGridOrthogonalization::ProjectVerticalBoundariesGridNodes()
                     {
                         continue;
                     }
-                    if (m_grid.GetNodeType(n, m) == NodeType::Invalid)
+
+                    // Only the nodes at the left and right boundaries, other nodes can lie in between
+                    const auto boundaryNodeType = m_grid.GetNodeType(n, mm);
+                    if (boundaryNodeType != NodeType::Left && boundaryNodeType != NodeType::Right)
                     {
                         continue;
                     }
+                    nextHorizontal = boundaryNodeType == NodeType::Left ? 1 : -1;
+
                     // The coefficients exist only for the faces of the block
                     const auto faceN = nextHorizontal == 1 ? n : n - 1;
                     if (m_orthoEqTerms.atp(faceN, mm - 1) == constants::missing::doubleValue ||
-- 
2.43.0


From c5908f1113ceaa54833c5399e82a402e5bc7d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:21 +0000
Subject: [PATCH 095/119] fix: the orthogonalization of a curvilinear grid uses
 the node types of the right grid line

---
 .../src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 1354258..77af3e1 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -581,7 +581,7 @@ lin_alg::Matrix<bool> CurvilinearGridOrthogonalization::ComputeInvalidHorizontal
             auto lastValidN = n + step;
             while (lastValidN > 0 &&
                    lastValidN < m_grid.NumN() &&
-                   m_grid.GetNodeType(lastValidN, n) == NodeType::InternalValid)
+                   m_grid.GetNodeType(lastValidN, m) == NodeType::InternalValid)
             {
                 lastValidN += step;
             }
-- 
2.43.0


From e15c298b0fc2cedf557753c989cd213cd7ac3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 096/119] fix: connecting meshes with four hanging nodes on an
 edge does not depend on the direction of the edges of the next cells

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 8996dc6..e9f357f 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -592,8 +592,24 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeFourHangi
     }
 
     const UInt firstNextOppositeEdge = mesh.FindOppositeEdge(firstNextFace, edgeId);
-    const UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
-    const UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+    UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
+    UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+
+    // The edge may have any direction: its start node is to be the one opposite to the start node of the previous edge
+    const auto [segmentsCross,
+                intersectionPoint,
+                crossProduct,
+                normalisedPolylineSegmentDistance,
+                normalisedEdgeDistance] = AreSegmentsCrossing(mesh.Node(startNode),
+                                                              mesh.Node(firstNextOppositeStartNode),
+                                                              mesh.Node(endNode),
+                                                              mesh.Node(firstNextOppositeEndNode),
+                                                              false,
+                                                              mesh.m_projection);
+    if (segmentsCross)
+    {
+        std::swap(firstNextOppositeStartNode, firstNextOppositeEndNode);
+    }
 
     //--------------------------------
     // Create 2 new nodes (labelled 4 and 5 in ASCII diagram)
-- 
2.43.0


From e63eb44ca9bdb2af89d63572e82a97d74f0b9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:53 +0000
Subject: [PATCH 097/119] fix: connecting meshes takes edges as adjacent only
 where they face each other

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index e9f357f..dd6afbb 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -64,14 +64,16 @@ void meshkernel::ConnectMeshes::AreEdgesAdjacent(const Mesh2D& mesh,
         const Point midPoint = 0.5 * (edge1Start + edge1End);
 
         const auto [distance, intersection, parameterisedDistance] = DistanceFromLine(midPoint, edge2Start, edge2End, mesh.m_projection);
-        areAdjacent = distance != constants::missing::doubleValue && distance < minimumLength;
+        areAdjacent = distance != constants::missing::doubleValue && distance < minimumLength &&
+                      parameterisedDistance >= 0.0 && parameterisedDistance <= 1.0;
     }
     else
     {
         const Point midPoint = 0.5 * (edge2Start + edge2End);
 
         const auto [distance, intersection, parameterisedDistance] = DistanceFromLine(midPoint, edge1Start, edge1End, mesh.m_projection);
-        areAdjacent = distance != constants::missing::doubleValue && distance < minimumLength;
+        areAdjacent = distance != constants::missing::doubleValue && distance < minimumLength &&
+                      parameterisedDistance >= 0.0 && parameterisedDistance <= 1.0;
     }
 
     if (areAdjacent)
-- 
2.43.0


From 32ce12535600c23874baf268cfe92193224c79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:28 +0000
Subject: [PATCH 098/119] fix: connecting meshes with more than five edges
 along one edge is an error instead of a write past the end of an array

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index dd6afbb..ad2f188 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -151,6 +151,12 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount == m_maximumNumberOfIrregularElementsAlongEdge)
+            {
+                throw NotImplementedError("Cannot handle more than {} elements along irregular edge",
+                                          m_maximumNumberOfIrregularElementsAlongEdge);
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
-- 
2.43.0


From 01c8d8f1d392a7140f19a8875ee353e88cf66a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:36 +0000
Subject: [PATCH 099/119] fix: the linear refinement of a polygon from its
 closing point to its first point does not read past the end

---
 libs/MeshKernel/src/Polygon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index bd93a89..70fe5e5 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -481,6 +481,12 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         numPolygonNodes = static_cast<UInt>(m_nodes.size()) - static_cast<UInt>(startIndex) + static_cast<UInt>(endIndex);
     }
 
+    if (numPolygonNodes < 2)
+    {
+        // From the closing point to the first point, which are the same
+        return m_nodes;
+    }
+
     std::vector<Point> polygonNodes(numPolygonNodes);
     std::vector<double> averageLengths(numPolygonNodes, 0.0);
     std::vector<double> actualAverageLengths(numPolygonNodes, 0.0);
-- 
2.43.0


From 45225e685d5c0eb7bedabc731bcbda8d97c50a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:36 +0000
Subject: [PATCH 100/119] fix: the points of a linearly refined polygon are
 computed also when the maximum number of iterations is reached

---
 libs/MeshKernel/src/Polygon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index 70fe5e5..2d3a8c9 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -616,6 +616,12 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         outerIter++;
     }
 
+    // The number of points may have changed in the last iteration
+    for (UInt i = 0; i < cumulativeDistances.size(); ++i)
+    {
+        result[i] = interpolatePointOnPolyline(polygonNodes, initialCumulativeDistances, cumulativeDistances[i]);
+    }
+
     if (endIndex > startIndex)
     {
         result.insert(result.begin(), m_nodes.begin(), m_nodes.begin() + startIndex);
-- 
2.43.0


From b407dc315e76fb76f8333af0fc085893636fe896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:36 +0000
Subject: [PATCH 101/119] fix: the offset of polygons keeps the separators
 between polygons and holes and does not write past the end

---
 libs/MeshKernel/src/Polygons.cpp | 42 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..f04a37f 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,37 +190,41 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
+    newPolygonPoints.reserve(innerAndOuter ? 2 * m_numberOfNodes + 1 : m_numberOfNodes);
 
-    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    auto addOffset = [&newPolygonPoints](const Polygon& polygon, const Point& separator, const double offsetDistance)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
-
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        if (!newPolygonPoints.empty())
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            newPolygonPoints.push_back(separator);
         }
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+        const std::vector<Point> offsetPoints(polygon.ComputeOffset(offsetDistance, false));
+        newPolygonPoints.insert(newPolygonPoints.end(), offsetPoints.begin(), offsetPoints.end());
+    };
+
+    auto addAllOffsets = [this, &addOffset, &innerSeparator, &outerSeparator](const double offsetDistance)
+    {
+        for (const PolygonalEnclosure& enclosure : m_enclosures)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
+            addOffset(enclosure.Outer(), outerSeparator, offsetDistance);
 
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
+            for (UInt i = 0; i < enclosure.NumberOfInner(); ++i)
             {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
+                addOffset(enclosure.Inner(i), innerSeparator, offsetDistance);
             }
         }
+    };
+
+    addAllOffsets(distance);
 
-        // Probably add outer separator here (if not the last)
+    if (innerAndOuter)
+    {
+        addAllOffsets(-distance);
     }
 
     // set the new polygon
-- 
2.43.0


From 50b2942bfd7cca452e8ac9dfa6aa98089497486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:31 +0000
Subject: [PATCH 102/119] fix: snapping a polygon to a land boundary copies
 back only the polygon that was snapped

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 25393fb..40667d7 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3374,10 +3374,13 @@ namespace meshkernelapi
 
             const std::vector<meshkernel::Point>& snappedPolygonPoints = polygons.Enclosure(enclosureIndex).Outer().Nodes();
 
-            for (int i = 0; i < polygon.num_coordinates; ++i)
+            // The geometry list may contain several polygons: the snapped polygon starts at this index
+            const size_t enclosureStart = static_cast<size_t>(startIndex) - polygonStartNode;
+
+            for (size_t i = 0; i < snappedPolygonPoints.size(); ++i)
             {
-                polygon.coordinates_x[i] = snappedPolygonPoints[i].x;
-                polygon.coordinates_y[i] = snappedPolygonPoints[i].y;
+                polygon.coordinates_x[enclosureStart + i] = snappedPolygonPoints[i].x;
+                polygon.coordinates_y[enclosureStart + i] = snappedPolygonPoints[i].y;
             }
         }
         catch (...)
-- 
2.43.0


From 1765445562c8f0c7f60d20617f278fa23e590a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:08 +0000
Subject: [PATCH 103/119] fix: a global mesh also has its last column of cells
 when the longitude steps do not add up to 180 degrees exactly

---
 libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
index 80889ef..8e412ab 100644
--- a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
+++ b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
@@ -163,7 +163,8 @@ std::unique_ptr<Mesh2D> Mesh2DGenerateGlobal::Compute(const UInt numLongitudeNod
                 numberOfPoints = 5;
             }
 
-            if (points[2].x <= 180.0)
+            // The sum of the longitude steps is 180 degrees only up to rounding errors
+            if (constexpr double toleranceLongitude = 1.0e-6; points[2].x <= 180.0 + toleranceLongitude)
             {
                 pentagonFace = false;
                 AddFace(*mesh2d, points, GridExpansionDirection::Northwards, numberOfPoints);
-- 
2.43.0


From 3d18f92b901dd4d867985853a36716297b995bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:08 +0000
Subject: [PATCH 104/119] fix: a global mesh of a negative number of nodes is
 an error instead of an endless loop

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 40667d7..3813dab 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1718,14 +1718,14 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            if (numLongitudeNodes == 0)
+            if (numLongitudeNodes <= 0)
             {
-                throw meshkernel::MeshKernelError("The number of longitude nodes cannot be 0");
+                throw meshkernel::MeshKernelError("The number of longitude nodes must be positive");
             }
 
-            if (numLatitudeNodes == 0)
+            if (numLatitudeNodes <= 0)
             {
-                throw meshkernel::MeshKernelError("The number of latitude nodes cannot be 0");
+                throw meshkernel::MeshKernelError("The number of latitude nodes must be positive");
             }
 
             const auto mesh = meshkernel::Mesh2DGenerateGlobal::Compute(numLongitudeNodes, numLatitudeNodes, meshKernelState[meshKernelId].m_projection);
-- 
2.43.0


From adfdd45f579778503d14749218ecac2a65458857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:02 +0000
Subject: [PATCH 105/119] fix: the generation of a global mesh finds the nodes
 with a zero coordinate again

---
 libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
index 8e412ab..db3fa03 100644
--- a/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
+++ b/libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp
@@ -36,7 +36,8 @@ UInt Mesh2DGenerateGlobal::NodeIndexFromPosition(const Mesh& mesh, const Point&
 
     for (auto i = static_cast<int>(mesh.GetNumNodes() - 1); i >= 0; --i)
     {
-        if (IsEqual(x, mesh.Node(i), tolerance))
+        // Absolute differences, coordinates can be zero up to rounding errors
+        if (std::abs(x.x - mesh.Node(i).x) < tolerance && std::abs(x.y - mesh.Node(i).y) < tolerance)
         {
             return static_cast<UInt>(i);
         }
-- 
2.43.0


From 3f369426fccca1b441fbea7488ec6d650df0bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:02 +0000
Subject: [PATCH 106/119] fix: merging the nodes of a spherical mesh also works
 for merging distances below one meter

---
 libs/MeshKernel/src/Mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 274379b..02aa603 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -453,10 +453,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     nodesRtree->BuildTree(filteredNodes);
 
     // merge the closest nodes
-    auto const mergingDistanceSquared = mergingDistance * mergingDistance;
+    // The search tree of a spherical mesh is not accurate for distances below one meter, the distances of the nodes that it finds are checked below
+    auto const searchRadius = m_projection == Projection::cartesian ? mergingDistance : std::max(mergingDistance, 1.0);
+    auto const searchRadiusSquared = searchRadius * searchRadius;
     for (UInt i = 0; i < filteredNodes.size(); ++i)
     {
-        nodesRtree->SearchPoints(filteredNodes[i], mergingDistanceSquared);
+        nodesRtree->SearchPoints(filteredNodes[i], searchRadiusSquared);
 
         const auto resultSize = nodesRtree->GetQueryResultSize();
         if (resultSize > 1)
-- 
2.43.0


From c3c5c49e9aa82c60d9e1dc8a37faa7bdafea5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:45 +0000
Subject: [PATCH 107/119] fix: generating points in a polygon with edges of a
 millimeter does not exit the process

---
 extern/triangle/src/TriangleFacade.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extern/triangle/src/TriangleFacade.c b/extern/triangle/src/TriangleFacade.c
index ace481e..f002038 100644
--- a/extern/triangle/src/TriangleFacade.c
+++ b/extern/triangle/src/TriangleFacade.c
@@ -167,7 +167,8 @@ void Triangulation(int jatri,
     }
     else 
     {
-        i = sprintf(opties, "-Q-Y-q30.0-D-a%f", trisize);
+        /* Enough decimals for small areas: Triangle does not read exponents and exits if the area is zero. */
+        i = snprintf(opties, sizeof(opties), "-Q-Y-q30.0-D-a%.30f", trisize);
 
         triangulate(opties, &in, &mid, &vorout);
 
-- 
2.43.0


From d15b943297f4b82457b4d42f200ef37264d49a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:06 +0000
Subject: [PATCH 108/119] fix: Casulli refinement deletes the original edges of
 the corner nodes that it keeps

---
 .../include/MeshKernel/CasulliRefinement.hpp  |  6 ++++--
 libs/MeshKernel/src/CasulliRefinement.cpp     | 20 +++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index 8214699..cfb3587 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -193,12 +193,14 @@ namespace meshkernel
                                  std::vector<UInt>& connectedNodes,
                                  std::vector<std::vector<UInt>>& faceNodeMapping);
 
-        /// @brief Delete any unused nodes and perform a mesh administration.
+        /// @brief Delete any unused nodes and edges and perform a mesh administration.
         ///
         /// @param [in, out] mesh The mesh
         /// @param [in] numNodes The original number of nodes in the mesh
+        /// @param [in] numEdges The original number of edges in the mesh
+        /// @param [in] newNodes The new nodes of the original edges
         /// @param [in] nodeMask Node mask information
-        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> Administrate(Mesh2D& mesh, const UInt numNodes, const std::vector<NodeMask>& nodeMask);
+        [[nodiscard]] static std::unique_ptr<meshkernel::UndoAction> Administrate(Mesh2D& mesh, const UInt numNodes, const UInt numEdges, const std::vector<EdgeNodes>& newNodes, const std::vector<NodeMask>& nodeMask);
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 9e14fb5..3720259 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -50,7 +50,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
     refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
     refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
-    refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    refinementAction->Add(Administrate(mesh, numNodes, numEdges, newNodes, nodeMask));
     return refinementAction;
 }
 
@@ -203,7 +203,7 @@ std::vector<meshkernel::CasulliRefinement::NodeMask> meshkernel::CasulliRefineme
     return nodeMask;
 }
 
-std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administrate(Mesh2D& mesh, const UInt numNodes, const std::vector<NodeMask>& nodeMask)
+std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administrate(Mesh2D& mesh, const UInt numNodes, const UInt numEdges, const std::vector<EdgeNodes>& newNodes, const std::vector<NodeMask>& nodeMask)
 {
 
     std::unique_ptr<meshkernel::CompoundUndoAction> administrateAction = CompoundUndoAction::Create();
@@ -217,6 +217,22 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Administr
         }
     }
 
+    // The original edges of a corner node, which is kept, have been replaced by edges to the new nodes
+    for (UInt i = 0; i < numEdges; ++i)
+    {
+        const auto [firstNode, secondNode] = mesh.GetEdge(i);
+
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue || newNodes[i][0] == constants::missing::uintValue)
+        {
+            continue;
+        }
+
+        if (nodeMask[firstNode] == NodeMask::CornerNode || nodeMask[secondNode] == NodeMask::CornerNode)
+        {
+            administrateAction->Add(mesh.DeleteEdge(i));
+        }
+    }
+
     mesh.Administrate(administrateAction.get());
     return administrateAction;
 }
-- 
2.43.0


From 89ca50083d6aadd6c4a8f93049134f23b6c442f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:53 +0000
Subject: [PATCH 109/119] fix: Casulli refinement of a node with two edges
 between the same two faces does not leave a gap

---
 .../include/MeshKernel/CasulliRefinement.hpp  |  3 +-
 libs/MeshKernel/src/CasulliRefinement.cpp     | 59 +++++++------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
index cfb3587..5dbad76 100644
--- a/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CasulliRefinement.hpp
@@ -173,12 +173,13 @@ namespace meshkernel
         /// @brief Add newly generated nodes to the newNodes list.
         ///
         /// @param [in] mesh The Mesh
+        /// @param [in] elementId Id of the face that both edges belong to
         /// @param [in] nodeId Node shared by edge1Index and edge2Index
         /// @param [in] edge1Index First of two edges used to determine face
         /// @param [in] edge2Index Second of two edges used to determine face
         /// @param [in] newNodeId Identifier of the new node
         /// @param [in, out] newNodes List of new nodes and connectivity
-        static void StoreNewNode(const Mesh2D& mesh, const UInt nodeId, const UInt edge1Index, const UInt edge2Index, const UInt newNodeId, std::vector<EdgeNodes>& newNodes);
+        static void StoreNewNode(const Mesh2D& mesh, const UInt elementId, const UInt nodeId, const UInt edge1Index, const UInt edge2Index, const UInt newNodeId, std::vector<EdgeNodes>& newNodes);
 
         /// @brief Find elements and nodes that form the patch of elements directly connected to the node.
         ///
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 3720259..6067a00 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -26,6 +26,8 @@
 //------------------------------------------------------------------------------
 
 #include <algorithm>
+#include <set>
+#include <utility>
 
 #include "MeshKernel/CasulliRefinement.hpp"
 #include "MeshKernel/Exceptions.hpp"
@@ -273,39 +275,29 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectNo
 {
     std::unique_ptr<meshkernel::CompoundUndoAction> connectNodeAction = CompoundUndoAction::Create();
 
-    // make the original-edge based new edges
-    for (UInt i = 0; i < numEdges; ++i)
-    {
-        const UInt node1 = newNodes[i][0];
-        const UInt node2 = newNodes[i][1];
-        const UInt node3 = newNodes[i][2];
-        const UInt node4 = newNodes[i][3];
+    // The two edges of a node that has no other edges share their new nodes, these are connected once
+    std::set<std::pair<UInt, UInt>> connectedNodes;
 
-        // Parallel edges, these are the start-end connections
-        if (node1 != constants::missing::uintValue && node2 != constants::missing::uintValue && node1 != node2)
+    auto connect = [&](const UInt firstNode, const UInt secondNode)
+    {
+        if (firstNode != constants::missing::uintValue && secondNode != constants::missing::uintValue && firstNode != secondNode &&
+            connectedNodes.insert(std::minmax({firstNode, secondNode})).second)
         {
-            auto [edgeId, connectionAction] = mesh.ConnectNodes(node1, node2);
+            auto [edgeId, connectionAction] = mesh.ConnectNodes(firstNode, secondNode);
             connectNodeAction->Add(std::move(connectionAction));
         }
+    };
 
-        if (node3 != constants::missing::uintValue && node4 != constants::missing::uintValue && node3 != node4)
-        {
-            auto [edgeId, connectionAction] = mesh.ConnectNodes(node3, node4);
-            connectNodeAction->Add(std::move(connectionAction));
-        }
+    // make the original-edge based new edges
+    for (UInt i = 0; i < numEdges; ++i)
+    {
+        // Parallel edges, these are the start-end connections
+        connect(newNodes[i][0], newNodes[i][1]);
+        connect(newNodes[i][2], newNodes[i][3]);
 
         // normal edges, these are the left-right connections
-        if (node1 != constants::missing::uintValue && node3 != constants::missing::uintValue && node1 != node3)
-        {
-            auto [edgeId, connectionAction] = mesh.ConnectNodes(node1, node3);
-            connectNodeAction->Add(std::move(connectionAction));
-        }
-
-        if (node2 != constants::missing::uintValue && node4 != constants::missing::uintValue && node2 != node4)
-        {
-            auto [edgeId, connectionAction] = mesh.ConnectNodes(node2, node4);
-            connectNodeAction->Add(std::move(connectionAction));
-        }
+        connect(newNodes[i][0], newNodes[i][2]);
+        connect(newNodes[i][1], newNodes[i][3]);
     }
 
     return connectNodeAction;
@@ -641,7 +633,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ComputeNe
                 newNodeId = elementNode;
             }
 
-            StoreNewNode(mesh, elementNode, firstEdgeId, secondEdgeId, newNodeId, newNodes);
+            StoreNewNode(mesh, i, elementNode, firstEdgeId, secondEdgeId, newNodeId, newNodes);
         }
     }
 
@@ -685,7 +677,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ComputeNe
             newNodeId = node1;
         }
 
-        StoreNewNode(mesh, node1, i, i, newNodeId, newNodes);
+        StoreNewNode(mesh, mesh.m_edgesFaces[i][0], node1, i, i, newNodeId, newNodes);
 
         if (nodeMask[node2] != NodeMask::Unassigned)
         {
@@ -700,7 +692,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ComputeNe
             newNodeId = node2;
         }
 
-        StoreNewNode(mesh, node2, i, i, newNodeId, newNodes);
+        StoreNewNode(mesh, mesh.m_edgesFaces[i][0], node2, i, i, newNodeId, newNodes);
     }
 
     return newEdgeNodesAction;
@@ -717,7 +709,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ComputeNe
     return newNodesAction;
 }
 
-void meshkernel::CasulliRefinement::StoreNewNode(const Mesh2D& mesh, const UInt nodeId, const UInt edge1Index, const UInt edge2Index, const UInt newNodeId, std::vector<EdgeNodes>& newNodes)
+void meshkernel::CasulliRefinement::StoreNewNode(const Mesh2D& mesh, const UInt elementId, const UInt nodeId, const UInt edge1Index, const UInt edge2Index, const UInt newNodeId, std::vector<EdgeNodes>& newNodes)
 {
     UInt edgeId1 = edge1Index;
     UInt edgeId2 = edge2Index;
@@ -741,13 +733,6 @@ void meshkernel::CasulliRefinement::StoreNewNode(const Mesh2D& mesh, const UInt
         }
     }
 
-    UInt elementId = mesh.FindCommonFace(edgeId1, edgeId2);
-
-    if (elementId == constants::missing::uintValue)
-    {
-        throw AlgorithmError("No element found that shares edge: {} and {}", edgeId1, edgeId2);
-    }
-
     UInt lr1 = mesh.IsLeftOrRight(elementId, edgeId1);
     UInt lr2 = mesh.IsLeftOrRight(elementId, edgeId2);
 
-- 
2.43.0


From 440e60b8358017c9ddb1dc7266f533c10b9bbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:39 +0000
Subject: [PATCH 110/119] fix: edge flipping does not flip an edge when the new
 diagonal only touches it at a node

---
 libs/MeshKernel/src/FlipEdges.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/FlipEdges.cpp b/libs/MeshKernel/src/FlipEdges.cpp
index 7657b38..8c14ffc 100644
--- a/libs/MeshKernel/src/FlipEdges.cpp
+++ b/libs/MeshKernel/src/FlipEdges.cpp
@@ -126,7 +126,12 @@ std::unique_ptr<meshkernel::UndoAction> FlipEdges::Compute() const
                                                            false,
                                                            m_mesh.m_projection);
 
-            if (!areEdgesCrossing)
+            // If the diagonals only touch at a node, then three of the nodes lie on a line and one of the new triangles would have no area
+            constexpr double tolerance = 1.0e-6;
+            const auto isInteriorRatio = [](const double ratio)
+            { return ratio > tolerance && ratio < 1.0 - tolerance; };
+
+            if (!areEdgesCrossing || !isInteriorRatio(firstRatio) || !isInteriorRatio(secondRatio))
             {
                 continue;
             }
-- 
2.43.0


From 5cd6fda55362dd77cb3505017a5d52970fead56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:14 +0000
Subject: [PATCH 111/119] fix: fourth corner of a transfinite grid from a
 polygon is found in backward direction

---
 .../CurvilinearGrid/CurvilinearGridFromPolygon.cpp   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..e6ced14 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -127,12 +127,14 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
     }
 
     // get the fourth node
-    auto fourthNode = thirdNode + direction * (numMNodes - 1);
-
-    // This can never be true now
-    if (fourthNode < start)
+    UInt fourthNode;
+    if (direction == 1)
+    {
+        fourthNode = thirdNode + (numMNodes - 1);
+    }
+    else
     {
-        fourthNode += numPolygonNodes;
+        fourthNode = thirdNode + numPolygonNodes - (numMNodes - 1);
     }
 
     if (fourthNode >= numPolygonNodes)
-- 
2.43.0


From 43a6e9492f6b14203900e2c93f2db187e53ab47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 112/119] fix: centre of a transfinite grid from a triangle
 uses the middle points of the sides

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index e6ced14..4e30ba1 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -311,8 +311,8 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
 
     // compute triangle middle point
     const auto xia = static_cast<double>(n1) / static_cast<double>(numPointsFirstSide);
-    const auto xib = static_cast<double>(n2) / static_cast<double>(numPointsSecondSide);
-    const auto xic = static_cast<double>(n3) / static_cast<double>(numPointsThirdSide);
+    const auto xib = static_cast<double>(n3) / static_cast<double>(numPointsSecondSide);
+    const auto xic = static_cast<double>(n2) / static_cast<double>(numPointsThirdSide);
 
     auto const& polygonNodes = m_polygon.Nodes();
 
-- 
2.43.0


From 21b63adc671f764f7564f747711b14eade340568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:18 +0000
Subject: [PATCH 113/119] fix: corners of a transfinite grid that are not nodes
 of the polygon are refused

---
 .../CurvilinearGrid/CurvilinearGridFromPolygon.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4e30ba1..0792748 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -25,6 +25,8 @@
 //
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+
 #include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
 #include <MeshKernel/CurvilinearGrid/CurvilinearGridFromPolygon.hpp>
 #include <MeshKernel/Operations.hpp>
@@ -55,6 +57,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
                               firstNode, secondNode, thirdNode);
     }
 
+    if (std::max({firstNode, secondNode, thirdNode}) >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, not a node of the polygon: first = {}, second = {}, third = {}",
+                              firstNode, secondNode, thirdNode);
+    }
+
     // for the current polygon find the number of nodes
     UInt start = 0;
     UInt end = m_polygon.Size() - 1;
@@ -241,6 +249,12 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
         throw std::invalid_argument("CurvilinearGridFromPolygon::Compute: Invalid nodes.");
     }
 
+    if (std::max({firstNode, secondNode, thirdNode}) >= m_polygon.Size())
+    {
+        throw ConstraintError("Invalid node selection, not a node of the polygon: first = {}, second = {}, third = {}",
+                              firstNode, secondNode, thirdNode);
+    }
+
     // for the current polygon find the number of nodes
     UInt start = 0;
     UInt end = m_polygon.Size() - 1;
-- 
2.43.0


From 771f39335be494c97a75e337956a2975fef6d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:01 +0000
Subject: [PATCH 114/119] fix: a mesh node that lies on the land boundary has a
 nearest land boundary segment

---
 libs/MeshKernel/src/LandBoundaries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/LandBoundaries.cpp b/libs/MeshKernel/src/LandBoundaries.cpp
index 6ced51f..f141f8b 100644
--- a/libs/MeshKernel/src/LandBoundaries.cpp
+++ b/libs/MeshKernel/src/LandBoundaries.cpp
@@ -961,7 +961,7 @@ std::tuple<double, meshkernel::Point, meshkernel::UInt, double> LandBoundaries::
 
         const auto [distanceFromLandBoundary, normalPoint, ratio] = DistanceFromLine(node, m_landBoundary.Node(n), m_landBoundary.Node(n + 1), m_mesh.m_projection);
 
-        if (distanceFromLandBoundary > 0.0 && distanceFromLandBoundary < minimumDistance)
+        if (distanceFromLandBoundary >= 0.0 && distanceFromLandBoundary < minimumDistance)
         {
             minimumDistance = distanceFromLandBoundary;
             pointOnLandBoundary = normalPoint;
-- 
2.43.0


From 15312e27b8dcba13b9dd7ecf9b1d6178b8c874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 115/119] fix: delete_hanging_edges counts the edges of the
 mesh as it is

---
 libs/MeshKernel/src/Mesh2D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 3d032ca..6f27390 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1853,6 +1853,9 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteHangingEdges()
 {
     std::unique_ptr<meshkernel::CompoundUndoAction> deleteAction = CompoundUndoAction::Create();
 
+    // The number of edges at the nodes has to be up to date
+    Administrate(deleteAction.get());
+
     for (const auto& hangingEdge : GetHangingEdges())
     {
         deleteAction->Add(DeleteEdge(hangingEdge));
-- 
2.43.0


From f37f02dcbca81042dd458c0525b94a941edab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:13 +0000
Subject: [PATCH 116/119] fix: operations that use the faces and edges of the
 mesh bring them up to date first

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp |  4 ++++
 libs/MeshKernel/src/CasulliRefinement.cpp   |  3 +++
 libs/MeshKernelApi/src/MeshKernel.cpp       | 12 ++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index d65b9ed..be066e1 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -43,6 +43,10 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
     std::unique_ptr<FullUnstructuredGridUndo> refinementAction = FullUnstructuredGridUndo::Create(mesh);
+
+    // The faces have to be those of the mesh as it is
+    mesh.Administrate();
+
     const std::vector<Point> meshNodes(mesh.Nodes());
     const std::vector<Edge> meshEdges(mesh.Edges());
 
diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index 6067a00..5320dd9 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -42,6 +42,9 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
+    // The faces have to be those of the mesh as it is
+    mesh.Administrate();
+
     std::vector<EdgeNodes> newNodes(mesh.GetNumEdges(), {constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue, constants::missing::uintValue});
     std::vector<NodeMask> nodeMask(InitialiseNodeMask(mesh, polygon));
     std::unique_ptr<CompoundUndoAction> refinementAction = CompoundUndoAction::Create();
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3813dab..0cdb2ed 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -511,6 +511,9 @@ namespace meshkernelapi
             auto const landBoundariesPoints = ConvertGeometryListToPointVector(landBoundaries);
             auto const polygonNodes = ConvertGeometryListToPointVector(selectingPolygon);
 
+            // The edges and faces at the nodes and edges have to be those of the mesh as it is
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             // Construct all dependencies
             const auto polygon = meshkernel::Polygons(polygonNodes, meshKernelState[meshKernelId].m_projection);
             auto landBoundary = meshkernel::LandBoundaries(landBoundariesPoints, *meshKernelState[meshKernelId].m_mesh2d, polygon);
@@ -543,6 +546,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh not exist.");
             }
 
+            // The edges and faces at the nodes and edges have to be those of the mesh as it is
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             meshkernel::UInt edgeId = meshKernelState[meshKernelId].m_mesh2d->FindEdge(static_cast<meshkernel::UInt>(firstNode),
                                                                                        static_cast<meshkernel::UInt>(secondNode));
 
@@ -2144,6 +2150,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            // The edges and faces at the nodes and edges have to be those of the mesh as it is
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             auto undoAction = meshkernel::CompoundUndoAction::Create();
             undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->MergeTwoNodes(firstNode, secondNode));
             // Nodes left without edges are invalidated, this has to be part of the undo action
@@ -2877,6 +2886,9 @@ namespace meshkernelapi
                 throw meshkernel::ConstraintError("The selected mesh has no nodes.");
             }
 
+            // The edges and faces at the nodes and edges have to be those of the mesh as it is
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             meshkernel::RemoveDisconnectedRegions removeDisconnectedRegions;
             meshKernelUndoStack.Add(removeDisconnectedRegions.Compute(*meshKernelState[meshKernelId].m_mesh2d), meshKernelId);
         }
-- 
2.43.0


From dbf545aeac684f12205d820a875f747918582190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 117/119] fix: insert_edge_from_coordinates uses the lengths of
 the edges as they are

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 0cdb2ed..c6dde01 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2282,10 +2282,18 @@ namespace meshkernelapi
             meshkernel::Point const secondNodeCoordinates{secondNodeX, secondNodeY};
 
             const auto newEdgeLength = ComputeDistance(firstNodeCoordinates, secondNodeCoordinates, meshKernelState[meshKernelId].m_projection);
-            const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-            const auto minMeshEdgeLength = edgeLengths.empty() ? newEdgeLength : *std::ranges::min_element(edgeLengths);
+            // The lengths have to be those of the mesh as it is, deleted edges do not count
+            meshKernelState[meshKernelId].m_mesh2d->ComputeEdgesLengths();
+            auto minMeshEdgeLength = newEdgeLength;
+            for (const auto edgeLength : meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths)
+            {
+                if (edgeLength != meshkernel::constants::missing::doubleValue)
+                {
+                    minMeshEdgeLength = std::min(minMeshEdgeLength, edgeLength);
+                }
+            }
             const auto searchRadius = std::min(newEdgeLength * lengthFraction, minMeshEdgeLength * lengthFraction);
 
             if (searchRadius <= 0.0)
-- 
2.43.0


From 41668baf598fece12dad7de282eb4cef42af6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 118/119] fix: delete_node deletes the edges that the node has
 now

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c6dde01..0ff7e69 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2385,6 +2385,9 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
+            // The edges at the node have to be those of the mesh as it is
+            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+
             auto undoAction = meshkernel::CompoundUndoAction::Create();
             undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->DeleteNode(nodeIndex));
             // Nodes left without edges are invalidated, this has to be part of the undo action
-- 
2.43.0


From 54b6585d8188d061515bdbdaa9c2fef6f9fed40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 119/119] fix: reverse the derivatives of a spline together
 with its nodes in the transfinite grid from splines

---
 .../CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
index 3185b08..a9cc377 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp
@@ -362,6 +362,7 @@ void CurvilinearGridFromSplinesTransfinite::ComputeInteractions()
                     {
                         // switch j
                         std::ranges::reverse(m_splines->m_splineNodes[j]);
+                        std::ranges::reverse(m_splines->m_splineDerivatives[j]);
                         secondSplineRatio = static_cast<double>(numNodesJSpline) - 1.0 - secondSplineRatio;
                     }
                 }
@@ -372,6 +373,7 @@ void CurvilinearGridFromSplinesTransfinite::ComputeInteractions()
                     {
                         // switch i
                         std::ranges::reverse(m_splines->m_splineNodes[i]);
+                        std::ranges::reverse(m_splines->m_splineDerivatives[i]);
                         firstSplineRatio = static_cast<double>(numNodesISpline) - 1.0 - firstSplineRatio;
                     }
                 }
-- 
2.43.0

