From 96efbcf970184e4cf606b092c323953b375fbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 01/72] fix: record the state id with the undo step of
 mesh2d_snap_to_landboundary

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..72b7743 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From f90561bb55ab9c97d7bd41355a093d253fbc34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 02/72] fix: undo of network1d_set restores the previous
 network

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 72b7743..f33ffe0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -661,8 +661,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // Replace the pointer: the undo action keeps the previous network
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 7069d7aa43285a7c396438a8518da02e6bccd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 03/72] fix: undo of curvilinear_compute_circular_grid restores
 the previous grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f33ffe0..fe81470 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4286,8 +4286,9 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            // Replace the pointer: the undo action keeps the previous grid
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                                                                                                     meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 9a4a4b114938eb7738df77995dc4391f987e0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 04/72] fix: get_projection and get_closest_node report an
 error for an unknown id or no node, instead of creating a state or reading an
 invalid index

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index fe81470..4334cac 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2856,6 +2856,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
@@ -5305,7 +5310,18 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 05a55c3235ea4a00479454354faae158f8277d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:03 +0000
Subject: [PATCH 05/72] fix: undo of curvilinear_smoothing_directional restores
 the unsmoothed grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4334cac..9fb04e6 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4516,8 +4516,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute on a copy, the active grid is kept by the undo action
+            meshkernel::CurvilinearGrid gridToSmooth(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(gridToSmooth, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From ce7175ed9f282134fdebfad00ea85101c0128688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:36 +0000
Subject: [PATCH 06/72] fix: undo and redo of curvilinear grid edits restore
 all nodes, also those invalidated together with a deleted node

---
 .../CurvilinearGrid/CurvilinearGrid.hpp       |  6 ++
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 67 ++++++++-----------
 .../CurvilinearGridDeleteExterior.cpp         |  9 +--
 .../CurvilinearGridDeleteInterior.cpp         |  3 +-
 4 files changed, 37 insertions(+), 48 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..3f04b0b 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -473,6 +473,12 @@ namespace meshkernel
         /// @brief Computes the valid grid faces
         void ComputeGridFacesMask();
 
+        /// @brief Computes the grid node types from the current valid nodes, without changing any node
+        void UpdateGridNodeTypes();
+
+        /// @brief Updates the quantities derived from the nodes after an undo action has been restored or committed
+        void UpdateAfterUndoAction();
+
         /// @brief Compute the node indices in row-major order (n runs fastest).
         /// @returns The  mapping (m and n indices for each node)
         [[nodiscard]] std::vector<CurvilinearGridNodeIndices> ComputeNodeIndices() const;
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..61147bb 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -433,6 +433,22 @@ void CurvilinearGrid::RemoveInvalidNodes(bool invalidNodesToRemove)
 void CurvilinearGrid::ComputeGridNodeTypes()
 {
     RemoveInvalidNodes(true);
+    UpdateGridNodeTypes();
+}
+
+void CurvilinearGrid::UpdateAfterUndoAction()
+{
+    // Only derived quantities are updated here, the nodes have to remain as they were saved by the undo action
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
+    m_gridIndices = ComputeNodeIndices();
+    ComputeGridFacesMask();
+    UpdateGridNodeTypes();
+}
+
+void CurvilinearGrid::UpdateGridNodeTypes()
+{
     lin_alg::ResizeAndFillMatrix(m_gridNodesTypes, FullNumN(), FullNumM(), false, NodeType::Invalid);
 
     // Flag faces based on boundaries
@@ -1045,13 +1061,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Deleting a node may invalidate any number of other nodes, so all nodes have to be saved
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
@@ -1142,78 +1157,50 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
 {
     m_startOffset += undoAction.StartOffset();
     m_endOffset += undoAction.EndOffset();
-
-    // The node and edge trees need to be rebuilt
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_gridIndices = ComputeNodeIndices();
-
-    // Since the size of the grid has changed the node-vector needs to be reset
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
 {
     m_startOffset -= undoAction.StartOffset();
     m_endOffset -= undoAction.EndOffset();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
 {
     undoAction.Swap(*this);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
 {
     undoAction.Swap(*this);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAction)
 {
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoAction)
 {
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
-    m_gridIndices = ComputeNodeIndices();
-    ComputeGridNodeTypes();
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::RestoreAction(const ResetCurvilinearNodeAction& undoAction)
 {
     GetNode(undoAction.NodeId()) = undoAction.InitialNode();
-
-    if (undoAction.RecalculateNodeTypes())
-    {
-        ComputeGridNodeTypes();
-    }
+    UpdateAfterUndoAction();
 }
 
 void CurvilinearGrid::CommitAction(const ResetCurvilinearNodeAction& undoAction)
 {
     GetNode(undoAction.NodeId()) = undoAction.UpdatedNode();
-
-    if (undoAction.RecalculateNodeTypes())
-    {
-        ComputeGridNodeTypes();
-    }
+    UpdateAfterUndoAction();
 }
 
 std::vector<meshkernel::Point> CurvilinearGrid::ComputeNodes() const
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..ab8b1e5 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // Nodes that are no longer part of a face may later be invalidated as well, so all nodes have to be saved
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index e02cd67..2ddd160 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -47,7 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, m_upperRight);
+    // Nodes that are no longer part of a face may later be invalidated as well, so all nodes have to be saved
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     for (UInt n = lowerLimitI + 1; n < upperLimitI; ++n)
     {
-- 
2.43.0


From 91b4829e3df02c0ff71a4fed943a8b3b706e968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 07/72] fix: undo and redo of edge edits reinstate nodes that
 were connected to that edge only

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp   |  7 ++++
 .../MeshKernel/UndoActions/AddEdgeAction.hpp  |  8 ++++
 .../UndoActions/DeleteEdgeAction.hpp          |  7 ++++
 .../UndoActions/ResetEdgeAction.hpp           | 14 +++++++
 libs/MeshKernel/src/Mesh.cpp                  | 38 +++++++++++++++----
 .../src/UndoActions/AddEdgeAction.cpp         |  7 +++-
 .../src/UndoActions/DeleteEdgeAction.cpp      |  7 +++-
 .../src/UndoActions/ResetEdgeAction.cpp       | 12 +++++-
 8 files changed, 89 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index bfb1da2..8a3cbce 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -26,6 +26,7 @@
 //------------------------------------------------------------------------------
 
 #pragma once
+#include <array>
 #include <memory>
 
 #include "MeshKernel/BoundingBox.hpp"
@@ -376,6 +377,9 @@ namespace meshkernel
         /// is false then the edge is in-valid.
         bool IsValidEdge(const UInt edgeId) const;
 
+        /// @brief Get the start and end node of an edge, a node is invalid if the edge does not refer to a node of the mesh.
+        std::array<Point, 2> GetEdgeNodes(const Edge& edge) const;
+
         /// @brief Apply the reset node action
         void CommitAction(const ResetNodeAction& undoAction);
 
@@ -506,6 +510,9 @@ namespace meshkernel
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
         BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
 
+        /// @brief Set the edge and reinstate its nodes, if these have become invalid.
+        void SetEdge(const UInt edgeId, const Edge& edge, const std::array<Point, 2>& edgeNodes);
+
         /// @brief Set nodes and edges that are not connected to be invalid.
         void SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction);
 
diff --git a/libs/MeshKernel/include/MeshKernel/UndoActions/AddEdgeAction.hpp b/libs/MeshKernel/include/MeshKernel/UndoActions/AddEdgeAction.hpp
index c1f5270..2bc9abc 100644
--- a/libs/MeshKernel/include/MeshKernel/UndoActions/AddEdgeAction.hpp
+++ b/libs/MeshKernel/include/MeshKernel/UndoActions/AddEdgeAction.hpp
@@ -27,9 +27,11 @@
 
 #pragma once
 
+#include <array>
 #include <memory>
 
 #include "MeshKernel/Entities.hpp"
+#include "MeshKernel/Point.hpp"
 #include "MeshKernel/UndoActions/BaseMeshUndoAction.hpp"
 
 namespace meshkernel
@@ -53,12 +55,18 @@ namespace meshkernel
         /// @brief Get the edge
         const Edge& GetEdge() const;
 
+        /// @brief Get the nodes of the edge, as they were when the action was created
+        const std::array<Point, 2>& EdgeNodes() const;
+
     private:
         /// @brief The edge identifier
         UInt m_edgeId;
 
         /// @brief The added edge
         Edge m_edge;
+
+        /// @brief The nodes of the edge
+        std::array<Point, 2> m_edgeNodes;
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp b/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
index 80090b1..a67fa84 100644
--- a/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
+++ b/libs/MeshKernel/include/MeshKernel/UndoActions/DeleteEdgeAction.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <array>
 #include <memory>
 
 #include "MeshKernel/Constants.hpp"
@@ -55,12 +56,18 @@ namespace meshkernel
         /// @brief Get the edge
         const Edge& GetEdge() const;
 
+        /// @brief Get the nodes of the edge, as they were when the action was created
+        const std::array<Point, 2>& EdgeNodes() const;
+
     private:
         /// @brief The edge identifier
         UInt m_edgeId;
 
         /// @brief The deleted edge
         Edge m_edge;
+
+        /// @brief The nodes of the edge
+        std::array<Point, 2> m_edgeNodes;
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/include/MeshKernel/UndoActions/ResetEdgeAction.hpp b/libs/MeshKernel/include/MeshKernel/UndoActions/ResetEdgeAction.hpp
index e3c3fb1..a47f8f4 100644
--- a/libs/MeshKernel/include/MeshKernel/UndoActions/ResetEdgeAction.hpp
+++ b/libs/MeshKernel/include/MeshKernel/UndoActions/ResetEdgeAction.hpp
@@ -27,9 +27,11 @@
 
 #pragma once
 
+#include <array>
 #include <memory>
 
 #include "MeshKernel/Entities.hpp"
+#include "MeshKernel/Point.hpp"
 #include "MeshKernel/UndoActions/BaseMeshUndoAction.hpp"
 
 namespace meshkernel
@@ -56,6 +58,12 @@ namespace meshkernel
         /// @brief Get the initial edge
         const Edge& UpdatedEdge() const;
 
+        /// @brief Get the nodes of the initial edge, as they were when the action was created
+        const std::array<Point, 2>& InitialEdgeNodes() const;
+
+        /// @brief Get the nodes of the updated edge, as they were when the action was created
+        const std::array<Point, 2>& UpdatedEdgeNodes() const;
+
     private:
         /// @brief The edge identifier
         UInt m_edgeId;
@@ -65,6 +73,12 @@ namespace meshkernel
 
         /// @brief The updated edge
         Edge m_updatedEdge;
+
+        /// @brief The nodes of the initial edge
+        std::array<Point, 2> m_initialEdgeNodes;
+
+        /// @brief The nodes of the updated edge
+        std::array<Point, 2> m_updatedEdgeNodes;
     };
 
 } // namespace meshkernel
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..f579156 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1149,6 +1149,32 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
            m_nodes[m_edges[edgeId].first].IsValid() && m_nodes[m_edges[edgeId].second].IsValid();
 }
 
+std::array<meshkernel::Point, 2> Mesh::GetEdgeNodes(const Edge& edge) const
+{
+    const auto getNode = [this](const UInt nodeId)
+    { return nodeId < m_nodes.size() ? m_nodes[nodeId] : Point(constants::missing::doubleValue, constants::missing::doubleValue); };
+
+    return {getNode(edge.first), getNode(edge.second)};
+}
+
+void Mesh::SetEdge(const UInt edgeId, const Edge& edge, const std::array<Point, 2>& edgeNodes)
+{
+    // A node that was connected only to this edge may have been invalidated while the edge was not in the mesh
+    const auto reinstateNode = [this](const UInt nodeId, const Point& node)
+    {
+        if (nodeId < m_nodes.size() && !m_nodes[nodeId].IsValid() && node.IsValid())
+        {
+            m_nodes[nodeId] = node;
+            m_nodesRTreeRequiresUpdate = true;
+        }
+    };
+
+    reinstateNode(edge.first, edgeNodes[0]);
+    reinstateNode(edge.second, edgeNodes[1]);
+    m_edges[edgeId] = edge;
+    m_edgesRTreeRequiresUpdate = true;
+}
+
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
     switch (location)
@@ -1196,8 +1222,7 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
-    m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetEdge(undoAction.EdgeId(), undoAction.GetEdge(), undoAction.EdgeNodes());
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
@@ -1209,8 +1234,7 @@ void Mesh::CommitAction(const ResetNodeAction& undoAction)
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
-    m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetEdge(undoAction.EdgeId(), undoAction.UpdatedEdge(), undoAction.UpdatedEdgeNodes());
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
@@ -1263,14 +1287,12 @@ void Mesh::RestoreAction(const ResetNodeAction& undoAction)
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
-    m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetEdge(undoAction.EdgeId(), undoAction.InitialEdge(), undoAction.InitialEdgeNodes());
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
-    m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
-    m_edgesRTreeRequiresUpdate = true;
+    SetEdge(undoAction.EdgeId(), undoAction.GetEdge(), undoAction.EdgeNodes());
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
diff --git a/libs/MeshKernel/src/UndoActions/AddEdgeAction.cpp b/libs/MeshKernel/src/UndoActions/AddEdgeAction.cpp
index 35be75f..519031d 100644
--- a/libs/MeshKernel/src/UndoActions/AddEdgeAction.cpp
+++ b/libs/MeshKernel/src/UndoActions/AddEdgeAction.cpp
@@ -7,7 +7,7 @@ std::unique_ptr<meshkernel::AddEdgeAction> meshkernel::AddEdgeAction::Create(Mes
     return std::make_unique<AddEdgeAction>(mesh, id, start, end);
 }
 
-meshkernel::AddEdgeAction::AddEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<AddEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end) {}
+meshkernel::AddEdgeAction::AddEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<AddEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end), m_edgeNodes(mesh.GetEdgeNodes(m_edge)) {}
 
 meshkernel::UInt meshkernel::AddEdgeAction::EdgeId() const
 {
@@ -18,3 +18,8 @@ const meshkernel::Edge& meshkernel::AddEdgeAction::GetEdge() const
 {
     return m_edge;
 }
+
+const std::array<meshkernel::Point, 2>& meshkernel::AddEdgeAction::EdgeNodes() const
+{
+    return m_edgeNodes;
+}
diff --git a/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp b/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
index a02eaf0..aa002f0 100644
--- a/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
+++ b/libs/MeshKernel/src/UndoActions/DeleteEdgeAction.cpp
@@ -7,7 +7,7 @@ std::unique_ptr<meshkernel::DeleteEdgeAction> meshkernel::DeleteEdgeAction::Crea
     return std::make_unique<DeleteEdgeAction>(mesh, id, start, end);
 }
 
-meshkernel::DeleteEdgeAction::DeleteEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<DeleteEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end) {}
+meshkernel::DeleteEdgeAction::DeleteEdgeAction(Mesh& mesh, const UInt id, const UInt start, const UInt end) : BaseMeshUndoAction<DeleteEdgeAction, Mesh>(mesh), m_edgeId(id), m_edge(start, end), m_edgeNodes(mesh.GetEdgeNodes(m_edge)) {}
 
 meshkernel::UInt meshkernel::DeleteEdgeAction::EdgeId() const
 {
@@ -18,3 +18,8 @@ const meshkernel::Edge& meshkernel::DeleteEdgeAction::GetEdge() const
 {
     return m_edge;
 }
+
+const std::array<meshkernel::Point, 2>& meshkernel::DeleteEdgeAction::EdgeNodes() const
+{
+    return m_edgeNodes;
+}
diff --git a/libs/MeshKernel/src/UndoActions/ResetEdgeAction.cpp b/libs/MeshKernel/src/UndoActions/ResetEdgeAction.cpp
index f7ce2f2..fefd8e3 100644
--- a/libs/MeshKernel/src/UndoActions/ResetEdgeAction.cpp
+++ b/libs/MeshKernel/src/UndoActions/ResetEdgeAction.cpp
@@ -6,7 +6,7 @@ std::unique_ptr<meshkernel::ResetEdgeAction> meshkernel::ResetEdgeAction::Create
     return std::make_unique<ResetEdgeAction>(mesh, id, initial, updated);
 }
 
-meshkernel::ResetEdgeAction::ResetEdgeAction(Mesh& mesh, const UInt id, const Edge& initial, const Edge& updated) : BaseMeshUndoAction<ResetEdgeAction, Mesh>(mesh), m_edgeId(id), m_initialEdge(initial), m_updatedEdge(updated) {}
+meshkernel::ResetEdgeAction::ResetEdgeAction(Mesh& mesh, const UInt id, const Edge& initial, const Edge& updated) : BaseMeshUndoAction<ResetEdgeAction, Mesh>(mesh), m_edgeId(id), m_initialEdge(initial), m_updatedEdge(updated), m_initialEdgeNodes(mesh.GetEdgeNodes(m_initialEdge)), m_updatedEdgeNodes(mesh.GetEdgeNodes(m_updatedEdge)) {}
 
 meshkernel::UInt meshkernel::ResetEdgeAction::EdgeId() const
 {
@@ -22,3 +22,13 @@ const meshkernel::Edge& meshkernel::ResetEdgeAction::UpdatedEdge() const
 {
     return m_updatedEdge;
 }
+
+const std::array<meshkernel::Point, 2>& meshkernel::ResetEdgeAction::InitialEdgeNodes() const
+{
+    return m_initialEdgeNodes;
+}
+
+const std::array<meshkernel::Point, 2>& meshkernel::ResetEdgeAction::UpdatedEdgeNodes() const
+{
+    return m_updatedEdgeNodes;
+}
-- 
2.43.0


From d3da29906616ff644b8dfb8192912fc1b0e8c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:58 +0000
Subject: [PATCH 08/72] fix: range check of node and edge indices when
 connecting nodes, deleting and resetting edges

---
 libs/MeshKernel/src/Mesh.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index f579156..ee844eb 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -519,7 +519,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge == constants::missing::uintValue || edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
@@ -620,6 +620,11 @@ meshkernel::UInt Mesh::FindEdge(UInt firstNodeIndex, UInt secondNodeIndex) const
         throw ConstraintError("Mesh::FindEdge: Invalid node index: first {}, second {}", firstNodeIndex, secondNodeIndex);
     }
 
+    if (firstNodeIndex >= GetNumNodes() || secondNodeIndex >= GetNumNodes())
+    {
+        throw RangeError("Mesh::FindEdge: Node index out of range: first {}, second {}, number of nodes {}", firstNodeIndex, secondNodeIndex, GetNumNodes());
+    }
+
     for (UInt n = 0; n < m_nodesNumEdges[firstNodeIndex]; n++)
     {
         const auto edgeIndex = m_nodesEdges[firstNodeIndex][n];
@@ -757,6 +762,11 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
 std::unique_ptr<meshkernel::ResetEdgeAction> Mesh::ResetEdge(UInt edgeId, const Edge& edge)
 {
+    if (edgeId >= GetNumEdges())
+    {
+        throw ConstraintError("The edge index, {}, is not in range.", edgeId);
+    }
+
     std::unique_ptr<meshkernel::ResetEdgeAction> undoAction = ResetEdgeAction::Create(*this, edgeId, m_edges[edgeId], edge);
     CommitAction(*undoAction);
     return undoAction;
-- 
2.43.0


From 8bf3284945d0e2629e48f7632a6c602703010c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 09/72] fix: rebuild the spatial search trees after every edit,
 undo, redo and change of bounding box

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp   |  3 +
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 18 ++++--
 libs/MeshKernel/src/Mesh.cpp                  | 63 ++++++++++++-------
 3 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 8a3cbce..8610a0d 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -510,6 +510,9 @@ namespace meshkernel
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
         BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
 
+        /// @brief Set all R-trees to be rebuilt before their next use.
+        void RequireRTreesUpdate();
+
         /// @brief Set the edge and reinstate its nodes, if these have become invalid.
         void SetEdge(const UInt edgeId, const Edge& edge, const std::array<Point, 2>& edgeNodes);
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 61147bb..0d39dae 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -250,34 +250,40 @@ void CurvilinearGrid::Delete(std::shared_ptr<Polygons> polygons, UInt polygonInd
 
 void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The trees of the other locations have been built for another bounding box as well
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index ee844eb..5e5d912 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -172,6 +172,11 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
         {
             if (undoAction == nullptr)
             {
+                if (m_nodes[n].IsValid())
+                {
+                    RequireRTreesUpdate();
+                }
+
                 m_nodes[n].SetInvalid();
             }
             else
@@ -400,8 +405,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     // Set the node to be invalid
     undoAction->Add(ResetNode(firstNodeIndex, {constants::missing::doubleValue, constants::missing::doubleValue}));
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
     return undoAction;
 }
 
@@ -515,6 +519,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
     }
 
     m_nodes[nodeId] = newValue;
+    RequireRTreesUpdate();
 }
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
@@ -755,8 +760,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
         m_nodes[movedNodeIndex[i]] += nodeDisplacement[i];
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
     return undoAction;
 }
 
@@ -1013,8 +1017,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
         m_edges[e].second = rhs.m_edges[index].second + numNodes;
     }
 
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 
     Administrate();
 
@@ -1175,44 +1178,54 @@ void Mesh::SetEdge(const UInt edgeId, const Edge& edge, const std::array<Point,
         if (nodeId < m_nodes.size() && !m_nodes[nodeId].IsValid() && node.IsValid())
         {
             m_nodes[nodeId] = node;
-            m_nodesRTreeRequiresUpdate = true;
         }
     };
 
     reinstateNode(edge.first, edgeNodes[0]);
     reinstateNode(edge.second, edgeNodes[1]);
     m_edges[edgeId] = edge;
+    RequireRTreesUpdate();
+}
+
+void Mesh::RequireRTreesUpdate()
+{
+    m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_boundingBoxCache != boundingBox)
+    {
+        // The trees of the other locations have been built for another bounding box as well
+        RequireRTreesUpdate();
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
@@ -1227,7 +1240,7 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
@@ -1238,8 +1251,7 @@ void Mesh::CommitAction(const AddEdgeAction& undoAction)
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
@@ -1250,28 +1262,31 @@ void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
-    m_nodesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    RequireRTreesUpdate();
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    RequireRTreesUpdate();
     Administrate();
 }
 
@@ -1279,20 +1294,19 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
-    m_nodesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
-    m_nodesRTreeRequiresUpdate = true;
-    m_edgesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
@@ -1308,21 +1322,24 @@ void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
-    m_nodesRTreeRequiresUpdate = true;
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    RequireRTreesUpdate();
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    RequireRTreesUpdate();
     Administrate();
 }
-- 
2.43.0


From d743af2da184e9d66662bc855435c17837091b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 10/72] fix: undo of merging nodes restores nodes invalidated
 by the merge

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 5e5d912..65f51a2 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -438,7 +438,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
     filteredNodes.resize(filteredNodeCount);
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
 
     // Update the R-Tree of the mesh nodes
     const auto nodesRtree = RTreeFactory::Create(m_projection);
@@ -465,7 +465,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From 72ef338c6247aa29cb49d36d69ad5005c31492b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 11/72] fix: undo of mesh2d_convert_projection restores the
 projection of the state

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 9fb04e6..c52a960 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1090,16 +1090,20 @@ namespace meshkernelapi
 
             if (sourceProjection != targetProjection)
             {
+                // The projection of the state is changed as well as the mesh
+                auto undoAction = meshkernel::CompoundUndoAction::Create();
+                undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
                 }
                 else
@@ -1108,6 +1112,8 @@ namespace meshkernelapi
                                                       meshkernel::ProjectionToString(sourceProjection),
                                                       meshkernel::ProjectionToString(targetProjection));
                 }
+
+                meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
             }
         }
         catch (...)
-- 
2.43.0


From 7296335af1f1747fc12286298017bf7745e1bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:31 +0000
Subject: [PATCH 12/72] fix: undo of mesh2d orthogonalization restores all
 nodes

---
 .../MeshKernel/src/OrthogonalizationAndSmoothing.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..73f243e 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -63,9 +63,6 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
     m_mesh.Administrate();
     const auto nodeMask = m_mesh.NodeMaskFromPolygon(*m_polygons, true);
 
-    std::vector<UInt> nodeIndices(m_mesh.GetNumNodes(), constants::missing::uintValue);
-    UInt nodesMovedCount = 0;
-
     // Flag nodes outside the polygon as corner points
     for (UInt n = 0; n < nodeMask.size(); n++)
     {
@@ -73,15 +70,10 @@ std::unique_ptr<meshkernel::UndoAction> OrthogonalizationAndSmoothing::Initializ
         {
             m_mesh.m_nodesTypes[n] = 3;
         }
-        else
-        {
-            nodeIndices[nodesMovedCount] = n;
-            ++nodesMovedCount;
-        }
     }
 
-    nodeIndices.resize(nodesMovedCount);
-    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh, nodeIndices);
+    // Nodes outside the polygon may be moved as well, so all nodes have to be saved
+    std::unique_ptr<NodeTranslationAction> undoAction = NodeTranslationAction::Create(m_mesh);
 
     // TODO: calculate volume weights for areal smoother
     m_mumax = (1.0 - m_orthogonalizationParameters.areal_to_angle_smoothing_factor) * 0.5;
-- 
2.43.0


From 171328339d07a0a6491147f5d141b85a96fb03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:58 +0000
Subject: [PATCH 13/72] fix: report an error when fewer than three points are
 triangulated, instead of ending the program

---
 libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
index 16a7809..c706803 100644
--- a/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
+++ b/libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp
@@ -88,6 +88,11 @@ namespace meshkernel
             {
                 throw ConstraintError("The sample is empty.");
             }
+            if (inputNodes.size() < constants::geometric::numNodesInTriangle)
+            {
+                // The triangulation library terminates the program when it is given fewer points
+                throw ConstraintError("At least three points are required for a triangulation, found {}.", inputNodes.size());
+            }
             std::vector<double> xLocalPolygon(inputNodes.size());
             std::vector<double> yLocalPolygon(inputNodes.size());
             for (UInt i = 0; i < inputNodes.size(); ++i)
-- 
2.43.0


From 8798ece7c54cbc648825672e15fd19269aac017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:59 +0000
Subject: [PATCH 14/72] fix: interactive orthogonalization and line shift
 report an error when not initialized for the current mesh or grid, instead of
 using a null or dangling reference

---
 .../CurvilinearGridAlgorithm.hpp              |  8 ++++
 .../OrthogonalizationAndSmoothing.hpp         |  3 ++
 .../CurvilinearGridAlgorithm.cpp              | 14 +++++-
 .../CurvilinearGridLineShift.cpp              |  4 ++
 .../CurvilinearGridOrthogonalization.cpp      |  2 +
 .../src/OrthogonalizationAndSmoothing.cpp     | 16 +++++++
 .../include/MeshKernelApi/State.hpp           | 35 ++++++++++++++
 libs/MeshKernelApi/src/MeshKernel.cpp         | 48 +++++--------------
 8 files changed, 94 insertions(+), 36 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridAlgorithm.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridAlgorithm.hpp
index 711dcb1..686979b 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridAlgorithm.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGridAlgorithm.hpp
@@ -65,5 +65,13 @@ namespace meshkernel
         std::vector<CurvilinearGridLine> m_lines; ///< Selected grid lines
         CurvilinearGridNodeIndices m_lowerLeft;   ///< The lower left corner of the block
         CurvilinearGridNodeIndices m_upperRight;  ///< The upper right corner of the block
+
+    protected:
+        /// @brief Checks that the size of the grid is the one for which the algorithm was constructed, throws otherwise
+        void CheckGridSize() const;
+
+    private:
+        UInt m_numM; ///< The size of the grid in m direction at construction
+        UInt m_numN; ///< The size of the grid in n direction at construction
     };
 } // namespace meshkernel
diff --git a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
index f6deee4..a4ec785 100644
--- a/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
+++ b/libs/MeshKernel/include/MeshKernel/OrthogonalizationAndSmoothing.hpp
@@ -114,6 +114,9 @@ namespace meshkernel
         void FinalizeOuterIteration();
 
     private:
+        /// @brief Checks that the number of mesh nodes is the one for which the algorithm was initialized, throws otherwise
+        void CheckMeshSize() const;
+
         /// @brief Project mesh nodes back to the original mesh boundary (orthonet_project_on_boundary)
         void SnapMeshToOriginalMeshBoundary();
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
index ad0712b..71aaf90 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridAlgorithm.cpp
@@ -34,12 +34,22 @@ using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridAlgorithm;
 using meshkernel::CurvilinearGridLine;
 
-CurvilinearGridAlgorithm::CurvilinearGridAlgorithm(CurvilinearGrid& grid) : m_grid(grid)
+CurvilinearGridAlgorithm::CurvilinearGridAlgorithm(CurvilinearGrid& grid) : m_grid(grid), m_numM(grid.NumM()), m_numN(grid.NumN())
 {
 }
 
+void CurvilinearGridAlgorithm::CheckGridSize() const
+{
+    if (m_grid.NumM() != m_numM || m_grid.NumN() != m_numN)
+    {
+        throw AlgorithmError("The size of the grid has changed since the algorithm was initialized: {{{}, {}}} != {{{}, {}}}", m_grid.NumM(), m_grid.NumN(), m_numM, m_numN);
+    }
+}
+
 void CurvilinearGridAlgorithm::SetBlock(Point const& firstCornerPoint, Point const& secondCornerPoint)
 {
+    CheckGridSize();
+
     // Get the m and n indices from the point coordinates
     auto const [lowerLeft, upperRight] = m_grid.ComputeBlockFromCornerPoints(firstCornerPoint, secondCornerPoint);
 
@@ -55,6 +65,8 @@ void CurvilinearGridAlgorithm::SetBlock(Point const& firstCornerPoint, Point con
 
 void CurvilinearGridAlgorithm::SetLine(Point const& firstPoint, Point const& secondPoint)
 {
+    CheckGridSize();
+
     // The selected nodes must be on the vertical or horizontal line
     const auto [newLineLowerLeft, newLineUpperRight] = m_grid.ComputeBlockFromCornerPoints(firstPoint, secondPoint);
 
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index e744f87..b0cadce 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -44,6 +44,8 @@ CurvilinearGridLineShift::CurvilinearGridLineShift(CurvilinearGrid& grid) : Curv
 
 meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
 {
+    CheckGridSize();
+
     if (m_lines.empty())
     {
         throw std::invalid_argument("CurvilinearGridLineShift::Compute No candidate line to shift has been selected");
@@ -148,6 +150,8 @@ void CurvilinearGridLineShift::TransformGrid(CurvilinearGridNodeIndices const& n
 
 meshkernel::UndoActionPtr CurvilinearGridLineShift::MoveNode(Point const& fromPoint, Point const& toPoint)
 {
+    CheckGridSize();
+
     if (m_lines.empty())
     {
         throw std::invalid_argument("CurvilinearGridLineShift::MoveNode No candidate line to shift has been selected");
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..1ef843d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -66,6 +66,8 @@ void CurvilinearGridOrthogonalization::ComputeFrozenGridPoints()
 
 meshkernel::UndoActionPtr CurvilinearGridOrthogonalization::Compute()
 {
+    CheckGridSize();
+
     if (!m_lowerLeft.IsValid() || !m_upperRight.IsValid())
     {
         throw std::invalid_argument("CurvilinearGridOrthogonalization::Compute: lower left and upper right corners defining the curvilinear grid block are not set");
diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 73f243e..9e5a730 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -126,8 +126,18 @@ void OrthogonalizationAndSmoothing::Compute()
     } // outer iter
 }
 
+void OrthogonalizationAndSmoothing::CheckMeshSize() const
+{
+    if (m_mesh.GetNumNodes() != m_originalNodes.size())
+    {
+        throw AlgorithmError("The number of nodes has changed since the orthogonalization was initialized: {} != {}", m_mesh.GetNumNodes(), m_originalNodes.size());
+    }
+}
+
 void OrthogonalizationAndSmoothing::PrepareOuterIteration()
 {
+    CheckMeshSize();
+
     // compute weights and rhs of orthogonalizer
     m_orthogonalizer->Compute();
 
@@ -230,6 +240,12 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
 
 void OrthogonalizationAndSmoothing::Solve()
 {
+    CheckMeshSize();
+
+    if (m_compressedRhs.size() != 2 * m_mesh.GetNumNodes())
+    {
+        throw AlgorithmError("The outer iteration has not been prepared.");
+    }
 
 #pragma omp parallel for
     for (int n = 0; n < static_cast<int>(m_mesh.GetNumNodes()); n++)
diff --git a/libs/MeshKernelApi/include/MeshKernelApi/State.hpp b/libs/MeshKernelApi/include/MeshKernelApi/State.hpp
index 74024f9..13b0383 100644
--- a/libs/MeshKernelApi/include/MeshKernelApi/State.hpp
+++ b/libs/MeshKernelApi/include/MeshKernelApi/State.hpp
@@ -71,6 +71,41 @@ namespace meshkernelapi
         std::shared_ptr<meshkernel::CurvilinearGridOrthogonalization> m_curvilinearGridOrthogonalization; ///< Shared pointer to meshkernel::CurvilinearGridOrthogonalization instance
         std::shared_ptr<meshkernel::CurvilinearGridLineShift> m_curvilinearGridLineShift;                 ///< Shared pointer to meshkernel::CurvilinearGridLineShift instance
 
+        // The entities on which the algorithms instances operate (an algorithm instance can not be used after its entity has been replaced)
+        std::weak_ptr<meshkernel::Mesh2D> m_meshOrthogonalizationMesh;                           ///< The mesh used by m_meshOrthogonalization
+        std::weak_ptr<meshkernel::CurvilinearGrid> m_curvilinearGridOrthogonalizationGrid;       ///< The grid used by m_curvilinearGridOrthogonalization
+        std::weak_ptr<meshkernel::CurvilinearGrid> m_curvilinearGridLineShiftGrid;               ///< The grid used by m_curvilinearGridLineShift
+
+        /// @brief Gets the mesh orthogonalization instance, throws if there is none or if its mesh has been replaced
+        meshkernel::OrthogonalizationAndSmoothing& MeshOrthogonalization() const
+        {
+            if (m_meshOrthogonalization == nullptr || m_meshOrthogonalizationMesh.lock() != m_mesh2d)
+            {
+                throw meshkernel::MeshKernelError("The mesh orthogonalization has not been initialized for the current mesh.");
+            }
+            return *m_meshOrthogonalization;
+        }
+
+        /// @brief Gets the curvilinear grid orthogonalization instance, throws if there is none or if its grid has been replaced
+        meshkernel::CurvilinearGridOrthogonalization& CurvilinearGridOrthogonalization() const
+        {
+            if (m_curvilinearGridOrthogonalization == nullptr || m_curvilinearGridOrthogonalizationGrid.lock() != m_curvilinearGrid)
+            {
+                throw meshkernel::MeshKernelError("The curvilinear grid orthogonalization has not been initialized for the current grid.");
+            }
+            return *m_curvilinearGridOrthogonalization;
+        }
+
+        /// @brief Gets the curvilinear grid line shift instance, throws if there is none or if its grid has been replaced
+        meshkernel::CurvilinearGridLineShift& CurvilinearGridLineShift() const
+        {
+            if (m_curvilinearGridLineShift == nullptr || m_curvilinearGridLineShiftGrid.lock() != m_curvilinearGrid)
+            {
+                throw meshkernel::MeshKernelError("The curvilinear grid line shift has not been initialized for the current grid.");
+            }
+            return *m_curvilinearGridLineShift;
+        }
+
         // Exclusively owned state
         meshkernel::Projection m_projection{meshkernel::Projection::cartesian}; ///< Projection used by the meshes
     };
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c52a960..2967692 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1293,6 +1293,7 @@ namespace meshkernelapi
                                                                                                                                 std::move(landBoundary),
                                                                                                                                 static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                                                                                 orthogonalizationParameters);
+            meshKernelState[meshKernelId].m_meshOrthogonalizationMesh = meshKernelState[meshKernelId].m_mesh2d;
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_meshOrthogonalization->Initialize(), meshKernelId);
         }
         catch (...)
@@ -1317,7 +1318,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
-            meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
+            meshKernelState[meshKernelId].MeshOrthogonalization().PrepareOuterIteration();
         }
         catch (...)
         {
@@ -1341,7 +1342,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
-            meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
+            meshKernelState[meshKernelId].MeshOrthogonalization().Solve();
         }
         catch (...)
         {
@@ -1399,7 +1400,7 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
-            meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
+            meshKernelState[meshKernelId].MeshOrthogonalization().FinalizeOuterIteration();
         }
         catch (...)
         {
@@ -1418,11 +1419,6 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            if (meshKernelState[meshKernelId].m_mesh2d->GetNumNodes() <= 0)
-            {
-                return lastExitCode;
-            }
-
             meshKernelState[meshKernelId].m_meshOrthogonalization.reset();
         }
         catch (...)
@@ -4323,6 +4319,7 @@ namespace meshkernelapi
 
             meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization = std::make_unique<meshkernel::CurvilinearGridOrthogonalization>(*meshKernelState[meshKernelId].m_curvilinearGrid,
                                                                                                                                               orthogonalizationParameters);
+            meshKernelState[meshKernelId].m_curvilinearGridOrthogonalizationGrid = meshKernelState[meshKernelId].m_curvilinearGrid;
         }
         catch (...)
         {
@@ -4345,16 +4342,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
-            if (meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization == nullptr)
-            {
-                throw meshkernel::MeshKernelError("CurvilinearGridOrthogonalization not instantiated.");
-            }
-
             meshkernel::Point firstPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point secondPoint{xUpperRightCorner, yUpperRightCorner};
 
             // Execute
-            meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization->SetBlock(firstPoint, secondPoint);
+            meshKernelState[meshKernelId].CurvilinearGridOrthogonalization().SetBlock(firstPoint, secondPoint);
         }
         catch (...)
         {
@@ -4378,16 +4370,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
-            if (meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization == nullptr)
-            {
-                throw meshkernel::MeshKernelError("CurvilinearGridOrthogonalization not instantiated.");
-            }
-
             meshkernel::Point const firstPoint{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondPoint{xSecondGridLineNode, ySecondGridLineNode};
 
             // Execute
-            meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization->SetLine(firstPoint, secondPoint);
+            meshKernelState[meshKernelId].CurvilinearGridOrthogonalization().SetLine(firstPoint, secondPoint);
         }
         catch (...)
         {
@@ -4406,13 +4393,8 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
-            if (meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization == nullptr)
-            {
-                throw meshkernel::MeshKernelError("CurvilinearGridOrthogonalization not instantiated.");
-            }
-
             // Execute
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridOrthogonalization->Compute(), meshKernelId);
+            meshKernelUndoStack.Add(meshKernelState[meshKernelId].CurvilinearGridOrthogonalization().Compute(), meshKernelId);
         }
         catch (...)
         {
@@ -4564,6 +4546,7 @@ namespace meshkernelapi
             }
 
             meshKernelState[meshKernelId].m_curvilinearGridLineShift = std::make_unique<meshkernel::CurvilinearGridLineShift>(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshKernelState[meshKernelId].m_curvilinearGridLineShiftGrid = meshKernelState[meshKernelId].m_curvilinearGrid;
         }
         catch (...)
         {
@@ -4589,7 +4572,7 @@ namespace meshkernelapi
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
-            meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetLine(firstNode, secondNode);
+            meshKernelState[meshKernelId].CurvilinearGridLineShift().SetLine(firstNode, secondNode);
         }
         catch (...)
         {
@@ -4651,7 +4634,7 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
-            meshKernelState[meshKernelId].m_curvilinearGridLineShift->SetBlock(lowerLeftPoint, upperRightPoint);
+            meshKernelState[meshKernelId].CurvilinearGridLineShift().SetBlock(lowerLeftPoint, upperRightPoint);
         }
         catch (...)
         {
@@ -4675,7 +4658,7 @@ namespace meshkernelapi
             }
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
+            meshKernelUndoStack.Add(meshKernelState[meshKernelId].CurvilinearGridLineShift().MoveNode(fromPoint, toPoint), meshKernelId);
         }
         catch (...)
         {
@@ -4694,12 +4677,7 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
-            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
-            {
-                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
-            }
-
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->Compute(), meshKernelId);
+            meshKernelUndoStack.Add(meshKernelState[meshKernelId].CurvilinearGridLineShift().Compute(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 28cf15e1810a1df63f4d4028c25ab52192071183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 15/72] fix: intersecting a polyline with an edge that has no
 faces ends

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..90e783e 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // the seed has been handled, also when it is not an edge of a face
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From db7a04659584520e3c21e21658bc2ade835cbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 16/72] fix: conversion to curvilinear does not read faces of
 edges without faces

---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 9eea743..3e880ca 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -305,6 +305,12 @@ bool Mesh2DToCurvilinear::CheckGridLine(const UInt validNode, const UInt candida
         const auto edgeIndex = m_mesh.m_nodesEdges[candidateNode][e];
         const auto otherNode = OtherNodeOfEdge(m_mesh.GetEdge(edgeIndex), candidateNode);
 
+        // an edge that is not part of any face can not be on a grid line
+        if (m_mesh.m_edgesNumFaces[edgeIndex] == 0)
+        {
+            continue;
+        }
+
         bool doCheck = m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
 
         if (m_mesh.m_edgesNumFaces[edgeIndex] == 2)
-- 
2.43.0


From 2204a66a1c3f4c181cc6de67148dec1f70f95284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 17/72] fix: connecting meshes, merge indicators are per node
 and the number of irregular elements along an edge is checked

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..d4092ee 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,6 +149,11 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount == m_maximumNumberOfIrregularElementsAlongEdge)
+            {
+                throw AlgorithmError("The number of irregular elements along edge {} exceeds the maximum, {}.", edgeI, m_maximumNumberOfIrregularElementsAlongEdge);
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
@@ -239,7 +244,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
-- 
2.43.0


From a8116c965faddde1beec4550e7d79ffc7ea971c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 18/72] fix: face administration from given face nodes, check
 that the edges close the face and have at most two faces

---
 libs/MeshKernel/src/Mesh2D.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..60f672d 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -588,10 +588,15 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
             index++;
         }
 
+        if (local_edges.size() != m_numFacesNodes[f])
+        {
+            throw AlgorithmError("FindFacesGivenMappings: the edges of face {} do not connect its {} nodes.", f, m_numFacesNodes[f]);
+        }
+
         m_facesEdges.emplace_back(local_edges);
         for (const auto& e : local_edges)
         {
-            if (m_edgesNumFaces[e] > 2)
+            if (m_edgesNumFaces[e] >= 2)
             {
                 throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces > 2.");
             }
-- 
2.43.0


From 14d94425d85e0610d05c51d07351553f6d67325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 19/72] fix: edge lengths, skip invalid edges and do not use
 out of date lengths; joining meshes keeps invalid edges invalid

---
 libs/MeshKernel/src/Mesh.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 65f51a2..d6d638b 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -569,6 +569,10 @@ void Mesh::ComputeEdgesLengths()
         {
             m_edgeLengths[e] = ComputeDistance(m_nodes[first], m_nodes[second], m_projection);
         }
+        else
+        {
+            m_edgeLengths[e] = constants::missing::doubleValue;
+        }
     }
 }
 
@@ -580,6 +584,11 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     const auto isNodeInPolygon = IsLocationInPolygon(polygon, Location::Nodes);
     for (UInt e = 0; e < numEdges; e++)
     {
+        if (!IsValidEdge(e))
+        {
+            continue;
+        }
+
         const auto& [firstNode, secondNode] = m_edges[e];
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
@@ -898,17 +907,12 @@ void Mesh::AdministrateNodesEdges(CompoundUndoAction* undoAction)
 
 double Mesh::ComputeMaxLengthSurroundingEdges(UInt node)
 {
-
-    if (m_edgeLengths.empty())
-    {
-        ComputeEdgesLengths();
-    }
-
     auto maxEdgeLength = std::numeric_limits<double>::lowest();
     for (UInt ee = 0; ee < m_nodesNumEdges[node]; ++ee)
     {
-        const auto edge = m_nodesEdges[node][ee];
-        maxEdgeLength = std::max(maxEdgeLength, m_edgeLengths[edge]);
+        // The edge lengths stored in the mesh may not be up to date
+        const auto& [first, second] = m_edges[m_nodesEdges[node][ee]];
+        maxEdgeLength = std::max(maxEdgeLength, ComputeDistance(m_nodes[first], m_nodes[second], m_projection));
     }
 
     return maxEdgeLength;
@@ -1013,8 +1017,9 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
     for (auto e = numEdges; e < numEdges + rhsNumEdges; ++e)
     {
         const auto index = e - numEdges;
-        m_edges[e].first = rhs.m_edges[index].first + numNodes;
-        m_edges[e].second = rhs.m_edges[index].second + numNodes;
+        const auto& [first, second] = rhs.m_edges[index];
+        m_edges[e].first = first == constants::missing::uintValue ? first : first + numNodes;
+        m_edges[e].second = second == constants::missing::uintValue ? second : second + numNodes;
     }
 
     RequireRTreesUpdate();
-- 
2.43.0


From e6a4af7c63c2ab2773f1819fd347976a1b6c621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 20/72] fix: inserting an edge does not connect a node to
 itself and does not use out of date edge lengths

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 2967692..7a7ca63 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2218,10 +2218,18 @@ namespace meshkernelapi
             meshkernel::Point const secondNodeCoordinates{secondNodeX, secondNodeY};
 
             const auto newEdgeLength = ComputeDistance(firstNodeCoordinates, secondNodeCoordinates, meshKernelState[meshKernelId].m_projection);
-            const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-            const auto minMeshEdgeLength = edgeLengths.empty() ? newEdgeLength : *std::ranges::min_element(edgeLengths);
+            // The edge lengths stored in the mesh may not be up to date
+            meshKernelState[meshKernelId].m_mesh2d->ComputeEdgesLengths();
+            auto minMeshEdgeLength = newEdgeLength;
+            for (const auto edgeLength : meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths)
+            {
+                if (edgeLength != meshkernel::constants::missing::doubleValue)
+                {
+                    minMeshEdgeLength = std::min(minMeshEdgeLength, edgeLength);
+                }
+            }
             const auto searchRadius = std::min(newEdgeLength * lengthFraction, minMeshEdgeLength * lengthFraction);
 
             if (searchRadius <= 0.0)
@@ -2250,6 +2258,12 @@ namespace meshkernelapi
             }
             secondNodeIndex = static_cast<int>(secondNodeId);
 
+            if (firstNodeId == secondNodeId)
+            {
+                compoundUndoAction->Restore();
+                throw meshkernel::MeshKernelError("The first and the second node are coinciding.");
+            }
+
             meshKernelState[meshKernelId].m_mesh2d->BuildTree(meshkernel::Location::Edges);
 
             auto [edgeId, action] = meshKernelState[meshKernelId].m_mesh2d->ConnectNodes(firstNodeId, secondNodeId);
-- 
2.43.0


From fce45aef809f88dcef4230f21cc941d11b16acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:30 +0000
Subject: [PATCH 21/72] fix: interpolation of gridded samples skips invalid
 edges

---
 .../MeshKernel/BilinearInterpolationOnGriddedSamples.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..b7f4c7d 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -161,6 +161,12 @@ namespace meshkernel
         for (UInt e = 0; e < numEdges; ++e)
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
+
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
         }
 
-- 
2.43.0


From 1535fa66d0ed1df27d61145741130503da242bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:30 +0000
Subject: [PATCH 22/72] fix: connecting meshes, check the number of hanging
 nodes along an edge

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index d4092ee..db44f0c 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -684,6 +684,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeHangingNo
         return nullptr;
     }
 
+    if (numberOfHangingNodes > m_maximumNumberOfIrregularElementsAlongEdge)
+    {
+        throw AlgorithmError("The number of hanging nodes, {}, along edge {} exceeds the maximum, {}.",
+                             numberOfHangingNodes, edgeId, m_maximumNumberOfIrregularElementsAlongEdge);
+    }
+
     std::unique_ptr<CompoundUndoAction> freeHangingNodesAction = CompoundUndoAction::Create();
 
     BoundedIntegerArray hangingNodes;
-- 
2.43.0


From 1a648106b08d2b0751a6b6b832abf32f8b5fe5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:30 +0000
Subject: [PATCH 23/72] fix: merging nodes does not remove a node more than
 once from the search tree

---
 libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp | 6 ++++++
 libs/MeshKernel/src/Mesh.cpp                           | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
index e4a2975..e226e4e 100644
--- a/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp
@@ -289,6 +289,12 @@ namespace meshkernel
             throw AlgorithmError("RTree is empty, deletion cannot performed");
         }
 
+        // The node at this position has been deleted before
+        if (m_points[position].second == std::numeric_limits<UInt>::max())
+        {
+            return;
+        }
+
         if (const auto numberRemoved = m_rtree2D.remove(m_points[position]); numberRemoved != 1)
         {
             return;
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d6d638b..4603223 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -421,7 +421,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     UInt filteredNodeCount = 0;
     for (UInt i = 0; i < numNodes; ++i)
     {
-        if (isNodeInPolygon[i])
+        if (isNodeInPolygon[i] && m_nodes[i].IsValid())
         {
             filteredNodes[filteredNodeCount] = m_nodes[i];
             originalNodeIndices[filteredNodeCount] = i;
-- 
2.43.0


From 21f5030968339f806fb5ce2eefa01b5a1283c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:30 +0000
Subject: [PATCH 24/72] fix: curvilinear grid node indices belong to the nodes
 in the search tree

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 0d39dae..f26dacd 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -273,6 +273,7 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
         if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
+            m_gridIndices = ComputeNodeIndices();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
         }
@@ -281,6 +282,7 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
         if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
+            m_gridIndices = ComputeNodeIndices();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-- 
2.43.0


From e514a449bab9f67916dc22ecd951cbedd22a47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:30 +0000
Subject: [PATCH 25/72] fix: dual face of a node connected to an edge without
 faces

---
 libs/MeshKernel/src/Mesh2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 60f672d..f49fb8a 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -1470,6 +1470,7 @@ std::vector<meshkernel::UInt> Mesh2D::SortedFacesAroundNode(UInt node) const
         // no faces for this edge
         if (m_edgesNumFaces[firstEdge] == 0)
         {
+            result.emplace_back(constants::missing::uintValue);
             continue;
         }
 
-- 
2.43.0


From d5d84043ea0186d176d1bb40c5270ea272508153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:31 +0000
Subject: [PATCH 26/72] fix: failing orthogonalization leaves no undo step

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7a7ca63..166d017 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1245,8 +1245,19 @@ namespace meshkernelapi
                                                                        std::move(landBoundary),
                                                                        static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                        orthogonalizationParameters);
-            meshKernelUndoStack.Add(ortogonalization.Initialize(), meshKernelId);
-            ortogonalization.Compute();
+            auto undoAction = ortogonalization.Initialize();
+
+            try
+            {
+                ortogonalization.Compute();
+            }
+            catch (...)
+            {
+                undoAction->Restore();
+                throw;
+            }
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 91af4c38371cb30b646368d7ec1c6dc90f53e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:31 +0000
Subject: [PATCH 27/72] fix: Casulli de-refinement does not use elements or
 edges that do not exist

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index 83f8b65..c63baf4 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -305,6 +305,11 @@ std::vector<meshkernel::CasulliDeRefinement::ElementType> meshkernel::CasulliDeR
 
     std::vector<ElementType> cellMask(mesh.GetNumFaces(), ElementType::Unassigned);
 
+    if (seedElement >= mesh.GetNumFaces())
+    {
+        return cellMask;
+    }
+
     cellMask[seedElement] = ElementType::WasNodeFirst;
     frontIndex.push_back(seedElement);
 
@@ -609,6 +614,12 @@ bool meshkernel::CasulliDeRefinement::UpdateDirectlyConnectedTriangleElements(Me
             }
         }
 
+        if (j == mesh.m_numFacesNodes[leftElementId])
+        {
+            // The elements do not have an edge in common
+            return false;
+        }
+
         if (otherEdgeId != constants::missing::uintValue)
         {
             mesh.m_facesEdges[leftElementId][j] = otherEdgeId;
@@ -736,7 +747,7 @@ void meshkernel::CasulliDeRefinement::RedirectNodesOfConnectedElements(Mesh2D& m
             {
                 if (faceNodeId == mesh.m_facesNodes[elementId][k])
                 {
-                    mesh.m_facesNodes[elementId][j] = nodeId;
+                    mesh.m_facesNodes[connectedElementId][j] = nodeId;
                 }
             }
         }
-- 
2.43.0


From a7f405ba9f38ace409f59621170db17e5f5c31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:43 +0000
Subject: [PATCH 28/72] fix: merging two nodes with many edges

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4603223..364b7ff 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -358,7 +358,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
+    std::vector<UInt> secondNodeEdges(m_nodesNumEdges[firstNodeIndex] + m_nodesNumEdges[secondNodeIndex], constants::missing::uintValue);
     UInt numSecondNodeEdges = 0;
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
-- 
2.43.0


From e0a6067904b22eae14509de223984d39f1ee66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:43 +0000
Subject: [PATCH 29/72] fix: offset of chainages has to be positive

---
 libs/MeshKernel/src/Network1D.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..907c439 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -101,6 +101,10 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
 
 void Network1D::ComputeOffsettedChainages(double offset)
 {
+    if (!(offset > 0.0))
+    {
+        throw std::invalid_argument("Network1D::ComputeOffsettedChainages: The offset must be larger than zero");
+    }
 
     for (UInt p = 0; p < m_polyLines.size(); ++p)
     {
-- 
2.43.0


From 65ce9d7e3e72816e671046a2dd82f58b4b8ce96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:43 +0000
Subject: [PATCH 30/72] fix: triangular mesh from an empty polygon list is an
 error

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 166d017..328a3e7 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1714,6 +1714,11 @@ namespace meshkernelapi
             // generate samples in all polygons
             auto const generatedPoints = polygon.ComputePointsInPolygons();
 
+            if (generatedPoints.empty())
+            {
+                throw meshkernel::ConstraintError("There is no polygon to generate a mesh in.");
+            }
+
             const meshkernel::Mesh2D mesh(generatedPoints[0], polygon, meshKernelState[meshKernelId].m_mesh2d->m_projection);
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(mesh), meshKernelId);
         }
-- 
2.43.0


From d0e6980cd6bcba6018ea1fa1a139e1d250f713ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:40 +0000
Subject: [PATCH 31/72] fix: averaging interpolation at edges skips invalid
 edges

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..1eb7f38 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -93,6 +93,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
-- 
2.43.0


From a8f1dec6c40cc70660b33421192021806b3aeffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:40 +0000
Subject: [PATCH 32/72] fix: failing initialization of the orthogonalization
 leaves no session behind

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 328a3e7..d203301 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1305,7 +1305,16 @@ namespace meshkernelapi
                                                                                                                                 static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                                                                                 orthogonalizationParameters);
             meshKernelState[meshKernelId].m_meshOrthogonalizationMesh = meshKernelState[meshKernelId].m_mesh2d;
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_meshOrthogonalization->Initialize(), meshKernelId);
+
+            try
+            {
+                meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_meshOrthogonalization->Initialize(), meshKernelId);
+            }
+            catch (...)
+            {
+                meshKernelState[meshKernelId].m_meshOrthogonalization.reset();
+                throw;
+            }
         }
         catch (...)
         {
-- 
2.43.0


From b60208ae5f367260968143863c9dcf44cd568c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:13 +0000
Subject: [PATCH 33/72] fix: connecting meshes, skip edges that have been
 removed already

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index db44f0c..d53868d 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -199,6 +199,12 @@ void meshkernel::ConnectMeshes::GatherHangingNodes(const UInt primaryStartNode,
     const UInt secondaryStartNode = irregularEdge.first;
     const UInt secondaryEndNode = irregularEdge.second;
 
+    if (secondaryStartNode == constants::missing::uintValue || secondaryEndNode == constants::missing::uintValue)
+    {
+        // The edge has been removed while processing another edge
+        return;
+    }
+
     if (mergeIndicator[secondaryStartNode] == MergeIndicator::Initial && secondaryStartNode != primaryStartNode && secondaryStartNode != primaryEndNode)
     {
         hangingNodesOnEdge[numberOfHangingNodes] = secondaryStartNode;
-- 
2.43.0


From dffe147c69224aa5f734059c808fbc22246e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 34/72] fix: face administration from given face nodes uses the
 edges of a node only

---
 libs/MeshKernel/src/Mesh2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index f49fb8a..39a995f 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -560,7 +560,7 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         local_nodes.emplace_back(m_nodes[node]);
         local_node_indices.emplace_back(node);
         UInt index = 0;
-        while (index < m_nodesEdges[node].size())
+        while (index < m_nodesNumEdges[node])
         {
             const auto edge = m_nodesEdges[node][index];
             const auto other_node = OtherNodeOfEdge(m_edges[edge], node);
-- 
2.43.0


From 7f5c3376aedcd65ee49e9a6ea275578c9198af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 35/72] fix: splitting a row of elements, element without
 opposite edge

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 16353ef..5520403 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -106,6 +106,12 @@ meshkernel::UInt meshkernel::SplitRowColumnOfMesh::GetNextElement(const Mesh2D&
     }
 
     UInt oppositeEdgeId = OppositeEdgeId(mesh, elementId, edgeId);
+
+    if (!IsValid(oppositeEdgeId))
+    {
+        return constants::missing::uintValue;
+    }
+
     UInt nextElementId = Neighbour(mesh.m_edgesFaces[oppositeEdgeId], elementId);
 
     return nextElementId;
-- 
2.43.0


From 11244406ed8ea9515b456d4f44888d81f4626381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 36/72] fix: smoother reports an error when the face of an edge
 is not around the node

---
 libs/MeshKernel/src/Smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 8b0b220..ce1ebd3 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -322,7 +322,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         const auto leftFace = m_mesh.m_edgesFaces[edgeIndex][0];
         faceLeftIndex = FindIndex(m_topologySharedFaces[currentTopology], leftFace);
 
-        if (m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
+        if (faceLeftIndex == constants::missing::uintValue)
         {
             throw std::invalid_argument(std::string("Smoother::ComputeOperatorsNode: Face could not be found,") +
                                         std::string("this happens when the face is outside of the polygon or maximumNumberOfEdgesPerFace is too low"));
-- 
2.43.0


From d6da4063d783da7ea117ca62fdde96b97105cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 37/72] fix: grid from splines, refinement factors have to be
 positive

---
 .../src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
index 56fa6a1..eca61cf 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp
@@ -24,6 +24,12 @@ meshkernel::CurvilinearGrid meshkernel::CurvilinearGridSplineToGrid::Compute(con
                               curvilinearParameters.n_refinement, curvilinearParameters.m_refinement);
     }
 
+    if (std::min(curvilinearParameters.m_refinement, curvilinearParameters.n_refinement) < 1)
+    {
+        throw ConstraintError("The refinement factors have to be at least 1, currently n- and m-fac are: {} and {} respectively",
+                              curvilinearParameters.n_refinement, curvilinearParameters.m_refinement);
+    }
+
     CurvilinearGrid grid(splines.m_projection);
 
     // Make copy of spline because they may be changed
-- 
2.43.0


From 0554eb6705b71608b196e9de076fef82263e28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 38/72] fix: boundary grid line type uses the bounds of the
 active grid nodes

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index f26dacd..115a540 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -848,7 +848,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     // Corner nodes
     if (firstNode.m_m == secondNode.m_m) // Left or Right
     {
-        if (firstNode.m_m + 1 < m_gridNodes.cols() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
+        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
         {
             return BoundaryGridLineType::Left;
         }
@@ -856,7 +856,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     }
     if (firstNode.m_n == secondNode.m_n) // Bottom or top
     {
-        if (firstNode.m_n + 1 < m_gridNodes.rows() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
+        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
         {
             return BoundaryGridLineType::Bottom;
         }
-- 
2.43.0


From e4eaf8de1e9cfe8c9b08a6cde8dc5f199c1012e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 39/72] fix: Casulli refinement, an edge that is not refined
 has no new node to connect

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..dee2ddc 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -348,6 +348,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::ConnectFa
         const UInt node3 = oldIndex[nextIndex];
         const UInt node4 = oldIndex[nextNextIndex];
 
+        if (node1 == constants::missing::uintValue)
+        {
+            // The edge was not refined
+            continue;
+        }
+
         // only one new node: new diagonal edge connects new node with one old node
         if (nodeMask[node1] < NodeMask::Unassigned && nodeMask[node2] == NodeMask::Unassigned && nodeMask[node3] == NodeMask::Unassigned && nodeMask[node4] == NodeMask::Unassigned)
         {
-- 
2.43.0


From 942d985c33b69d0e634a7b26429e553e379dd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:21 +0000
Subject: [PATCH 40/72] fix: refinement reports a cell with too many links
 before indexing its links

---
 libs/MeshKernel/src/MeshRefinement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/MeshRefinement.cpp b/libs/MeshKernel/src/MeshRefinement.cpp
index 5a1f08d..cb03bf6 100644
--- a/libs/MeshKernel/src/MeshRefinement.cpp
+++ b/libs/MeshKernel/src/MeshRefinement.cpp
@@ -1193,6 +1193,11 @@ void MeshRefinement::ComputeEdgesRefinementMask()
                 UInt num = 0;
                 for (UInt n = 0; n < numFaceNodes; n++)
                 {
+                    if (num >= constants::geometric::numNodesInQuadrilateral)
+                    {
+                        throw AlgorithmError("The number the links in the cell is not equal to 3.");
+                    }
+
                     const auto edgeIndex = m_mesh.m_facesEdges[f][n];
                     numOfEdges[n] = num;
 
-- 
2.43.0


From 3fe6da0997d357ccc74ec885e4d579052763d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:43 +0000
Subject: [PATCH 41/72] fix: multiple contacts skip invalid edges of the 1d
 mesh

---
 libs/MeshKernel/src/Contacts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..d6c8947 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -173,6 +173,11 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
         const auto firstNode1dMeshEdge = m_mesh1d.GetEdge(e).first;
         const auto secondNode1dMeshEdge = m_mesh1d.GetEdge(e).second;
 
+        if (!m_mesh1d.IsValidEdge(e))
+        {
+            continue;
+        }
+
         // computes the maximum edge length
         const auto maxEdgeLength = m_mesh1d.ComputeMaxLengthSurroundingEdges(firstNode1dMeshEdge);
 
-- 
2.43.0


From 2a3e1710805e684808160accb590d60ad74ef944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:41 +0000
Subject: [PATCH 42/72] fix: connecting meshes, skip boundary edges that have
 been removed already

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index d53868d..dce9450 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -267,6 +267,12 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
         const UInt boundaryEdgeId = edgesOnDomainBoundary[i];
         const Edge boundaryEdge = mesh.GetEdge(boundaryEdgeId);
 
+        if (boundaryEdge.first == missingValue || boundaryEdge.second == missingValue)
+        {
+            // The edge has been removed while processing another edge
+            continue;
+        }
+
         const UInt primaryStartNode = irregularEdge.startNode;
         const UInt primaryEndNode = irregularEdge.endNode;
 
-- 
2.43.0


From eebfc4f690823a4ac9ff303e2727ebdbb9875745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 43/72] fix: undo and redo move the action between the stacks
 without allocating

The action had been restored (or committed) before the node of the other list was allocated: when that failed the
action stayed on its stack, and the next undo (or redo) did not have any effect, or the opposite effect.
---
 libs/MeshKernel/src/UndoActions/UndoActionStack.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp b/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
index d500d4a..223b412 100644
--- a/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
+++ b/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
@@ -2,6 +2,7 @@
 #include "MeshKernel/Exceptions.hpp"
 
 #include <algorithm>
+#include <iterator>
 #include <utility>
 
 const meshkernel::UInt meshkernel::UndoActionStack::DefaultMaxUndoSize = 50;
@@ -96,8 +97,7 @@ std::optional<int> meshkernel::UndoActionStack::Undo()
         m_committed.back().m_undoAction->Restore();
         int actionId = m_committed.back().m_actionId;
         // Now move to restored stack
-        m_restored.emplace_back(std::move(m_committed.back()));
-        m_committed.pop_back();
+        m_restored.splice(m_restored.end(), m_committed, std::prev(m_committed.end()));
         return actionId;
     }
 
@@ -113,8 +113,7 @@ std::optional<int> meshkernel::UndoActionStack::Commit()
         m_restored.back().m_undoAction->Commit();
         int actionId = m_restored.back().m_actionId;
         // Now move to committed stack
-        m_committed.emplace_back(std::move(m_restored.back()));
-        m_restored.pop_back();
+        m_committed.splice(m_committed.end(), m_restored, std::prev(m_restored.end()));
 
         if (m_committed.size() > m_maxUndoSize)
         {
-- 
2.43.0


From 3e7d945aad82a4c7af9e2ed90a1d90c847cdc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 44/72] fix: an action that cannot be recorded on the undo
 stack is reverted

---
 libs/MeshKernel/src/UndoActions/UndoActionStack.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp b/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
index 223b412..5430ff3 100644
--- a/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
+++ b/libs/MeshKernel/src/UndoActions/UndoActionStack.cpp
@@ -18,7 +18,16 @@ void meshkernel::UndoActionStack::Add(UndoActionPtr&& action, const int actionId
             throw ConstraintError("Cannot add an action in the {} state.", UndoAction::to_string(action->GetState()));
         }
 
-        m_committed.emplace_back(std::move(action), actionId);
+        try
+        {
+            m_committed.emplace_back(std::move(action), actionId);
+        }
+        catch (...)
+        {
+            // The action could not be recorded, so it could never be undone
+            action->Restore();
+            throw;
+        }
 
         // Clear the restored actions for this actionId.
         // Adding a new undo action for an actionId, means that no action for this Id can be restored
-- 
2.43.0


From 8f94addb3d51581a568281e25c230cdeab6f6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:08 +0000
Subject: [PATCH 45/72] fix: computing contacts replaces the contacts of the
 state only when it succeeds

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 36 +++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index d203301..b24bc57 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3589,9 +3589,10 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            // Execute, the contacts of the state are replaced only when this succeeds
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3620,9 +3621,10 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            // Execute, the contacts of the state are replaced only when this succeeds
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3657,10 +3659,10 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
-                                                                                  meshKernelPolygons);
+            // Execute, the contacts of the state are replaced only when this succeeds
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask, meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3692,9 +3694,10 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            // Execute, the contacts of the state are replaced only when this succeeds
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3791,9 +3794,10 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            // Execute, the contacts of the state are replaced only when this succeeds
+            auto contacts = std::make_shared<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = contacts;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From b18f387ffb0f0a79477cceb5b0e145d81c888761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:24 +0000
Subject: [PATCH 46/72] fix: deallocate_state and convert_to_curvilinear leave
 the state unchanged when they fail

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index b24bc57..361eb30 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -194,18 +194,21 @@ namespace meshkernelapi
 
             MeshKernelState& mkState = meshKernelState[meshKernelId];
 
-            mkState.m_mesh1d = std::make_shared<meshkernel::Mesh1D>(mkState.m_projection);
-            mkState.m_mesh2d = std::make_shared<meshkernel::Mesh2D>(mkState.m_projection);
-            mkState.m_network1d = std::make_shared<meshkernel::Network1D>(mkState.m_projection);
-            mkState.m_contacts = std::make_shared<meshkernel::Contacts>(*mkState.m_mesh1d, *mkState.m_mesh2d);
-            mkState.m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(mkState.m_projection);
+            // Create the empty entities first, the state is not changed when this fails
+            const MeshKernelState emptyState(mkState.m_projection);
+
+            mkState.m_mesh1d = emptyState.m_mesh1d;
+            mkState.m_mesh2d = emptyState.m_mesh2d;
+            mkState.m_network1d = emptyState.m_network1d;
+            mkState.m_contacts = emptyState.m_contacts;
+            mkState.m_curvilinearGrid = emptyState.m_curvilinearGrid;
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
 
             mkState.m_meshOrthogonalization.reset();
             mkState.m_curvilinearGridFromSplines.reset();
             mkState.m_curvilinearGridOrthogonalization.reset();
             mkState.m_curvilinearGridLineShift.reset();
-
-            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -1136,8 +1139,11 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
             meshkernel::Mesh2DToCurvilinear mesh2DToCurvilinear(*meshKernelState[meshKernelId].m_mesh2d);
 
-            meshKernelState[meshKernelId].m_curvilinearGrid = mesh2DToCurvilinear.Compute({xPointCoordinate, yPointCoordinate});
-            meshKernelState[meshKernelId].m_mesh2d = std::make_unique<meshkernel::Mesh2D>(meshKernelState[meshKernelId].m_projection);
+            std::shared_ptr<meshkernel::CurvilinearGrid> curvilinearGrid = mesh2DToCurvilinear.Compute({xPointCoordinate, yPointCoordinate});
+            auto mesh2d = std::make_shared<meshkernel::Mesh2D>(meshKernelState[meshKernelId].m_projection);
+
+            meshKernelState[meshKernelId].m_curvilinearGrid = curvilinearGrid;
+            meshKernelState[meshKernelId].m_mesh2d = mesh2d;
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 4c72d70615cb51e2af30981b77a34380c5d01afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:24 +0000
Subject: [PATCH 47/72] fix: allocate_state takes the next id only when the
 state has been created

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 361eb30..2c099e9 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -152,10 +152,10 @@ namespace meshkernelapi
         lastExitCode = meshkernel::ExitCode::Success;
         try
         {
-            meshKernelId = meshKernelStateCounter++;
             meshkernel::range_check::CheckOneOf<int>(projectionType, meshkernel::GetValidProjections(), "Projection");
             auto const projection = static_cast<meshkernel::Projection>(projectionType);
-            meshKernelState.insert({meshKernelId, MeshKernelState(projection)});
+            meshKernelState.insert({meshKernelStateCounter, MeshKernelState(projection)});
+            meshKernelId = meshKernelStateCounter++;
         }
         catch (...)
         {
-- 
2.43.0


From d3884867a112f599fc019759c5e5b45f4b978939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:24 +0000
Subject: [PATCH 48/72] fix: what() of a MeshKernel error must not throw when
 memory runs out

---
 .../include/MeshKernel/Exceptions.hpp         | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Exceptions.hpp b/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
index 273bfa0..fe09c3a 100644
--- a/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
@@ -166,19 +166,27 @@ namespace meshkernel
         /// @return The explanatory string of the error.
         const char* what() const noexcept override
         {
+            try
+            {
 #if HAVE_SRC_LOC_IN_ERR_MSGS
-            m_what = fmt_ns::format("Exception of type '{}' in {} ({}:{}) {}: {}\n",
-                                    Category().Name(),
-                                    StrippedFilePath(),
-                                    m_source_location.line(),
-                                    m_source_location.column(),
-                                    m_source_location.function_name(),
-                                    FormattedMessage());
+                m_what = fmt_ns::format("Exception of type '{}' in {} ({}:{}) {}: {}\n",
+                                        Category().Name(),
+                                        StrippedFilePath(),
+                                        m_source_location.line(),
+                                        m_source_location.column(),
+                                        m_source_location.function_name(),
+                                        FormattedMessage());
 #else
-            m_what = fmt_ns::format("Exception of type '{}': {}\n",
-                                    Category().Name(),
-                                    FormattedMessage());
+                m_what = fmt_ns::format("Exception of type '{}': {}\n",
+                                        Category().Name(),
+                                        FormattedMessage());
 #endif
+            }
+            catch (...)
+            {
+                // There is no memory for the formatted message
+                return "MeshKernelError";
+            }
             return m_what.c_str();
         }
 
-- 
2.43.0


From 09ffdab61d68f0ef5be58511cefd412c771427c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:47 +0000
Subject: [PATCH 49/72] fix: faces given with a mesh refer to the nodes given,
 also when unconnected nodes are removed

---
 libs/MeshKernel/src/Mesh2D.cpp | 48 +++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 39a995f..6f678f4 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -65,7 +65,47 @@ Mesh2D::Mesh2D(const std::vector<Edge>& edges,
                Projection projection)
     : Mesh(edges, nodes, projection)
 {
-    DoAdministrationGivenFaceNodesMapping(faceNodes, numFaceNodes);
+    if (m_nodes.size() == nodes.size())
+    {
+        DoAdministrationGivenFaceNodesMapping(faceNodes, numFaceNodes);
+        return;
+    }
+
+    // The nodes without a valid edge have been removed, the faces have to refer to the remaining nodes
+    std::vector<bool> isConnected(nodes.size(), false);
+
+    for (const auto& [first, second] : edges)
+    {
+        if (first != constants::missing::uintValue && second != constants::missing::uintValue && nodes[first].IsValid() && nodes[second].IsValid())
+        {
+            isConnected[first] = true;
+            isConnected[second] = true;
+        }
+    }
+
+    std::vector<UInt> nodeIndices(nodes.size(), constants::missing::uintValue);
+    UInt numConnected = 0;
+
+    for (UInt n = 0; n < nodes.size(); ++n)
+    {
+        if (isConnected[n])
+        {
+            nodeIndices[n] = numConnected;
+            ++numConnected;
+        }
+    }
+
+    auto remainingFaceNodes(faceNodes);
+
+    for (auto& face : remainingFaceNodes)
+    {
+        for (auto& node : face)
+        {
+            node = node < nodeIndices.size() ? nodeIndices[node] : constants::missing::uintValue;
+        }
+    }
+
+    DoAdministrationGivenFaceNodesMapping(remainingFaceNodes, numFaceNodes);
 }
 
 Mesh2D::Mesh2D(const std::vector<Point>& inputNodes, const Polygons& polygons, Projection projection)
@@ -556,6 +596,12 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         local_nodes.clear();
         local_node_indices.clear();
 
+        if (m_facesNodes[f].empty() || std::ranges::any_of(m_facesNodes[f], [this](const UInt faceNode)
+                                                           { return faceNode >= GetNumNodes(); }))
+        {
+            throw AlgorithmError("FindFacesGivenMappings: face {} has a node that is not connected to any edge of the mesh.", f);
+        }
+
         auto node = m_facesNodes[f][0];
         local_nodes.emplace_back(m_nodes[node]);
         local_node_indices.emplace_back(node);
-- 
2.43.0


From f9a1c2ff8bb42877a77af83341ae92e98c0ae3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 50/72] fix: an undo or redo that fails leaves the mesh as it
 was

---
 .../UndoActions/BaseMeshUndoAction.hpp        | 22 +++++++++++--
 .../src/UndoActions/CompoundUndoAction.cpp    | 32 ++++++++++++++++---
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/UndoActions/BaseMeshUndoAction.hpp b/libs/MeshKernel/include/MeshKernel/UndoActions/BaseMeshUndoAction.hpp
index d24396f..b74b548 100644
--- a/libs/MeshKernel/include/MeshKernel/UndoActions/BaseMeshUndoAction.hpp
+++ b/libs/MeshKernel/include/MeshKernel/UndoActions/BaseMeshUndoAction.hpp
@@ -60,13 +60,31 @@ namespace meshkernel
 template <typename DerivedUndoAction, class Mesh>
 void meshkernel::BaseMeshUndoAction<DerivedUndoAction, Mesh>::DoCommit()
 {
-    mesh_.CommitAction(*static_cast<DerivedUndoAction*>(this));
+    try
+    {
+        mesh_.CommitAction(*static_cast<DerivedUndoAction*>(this));
+    }
+    catch (...)
+    {
+        // The mesh should remain as it was before the action
+        mesh_.RestoreAction(*static_cast<DerivedUndoAction*>(this));
+        throw;
+    }
 }
 
 template <typename DerivedUndoAction, class Mesh>
 void meshkernel::BaseMeshUndoAction<DerivedUndoAction, Mesh>::DoRestore()
 {
-    mesh_.RestoreAction(*static_cast<DerivedUndoAction*>(this));
+    try
+    {
+        mesh_.RestoreAction(*static_cast<DerivedUndoAction*>(this));
+    }
+    catch (...)
+    {
+        // The mesh should remain as it was before the action
+        mesh_.CommitAction(*static_cast<DerivedUndoAction*>(this));
+        throw;
+    }
 }
 
 template <typename DerivedUndoAction, class Mesh>
diff --git a/libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp b/libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp
index 9b3f9bf..65fc49c 100644
--- a/libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp
+++ b/libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp
@@ -25,17 +25,41 @@ void meshkernel::CompoundUndoAction::Add(UndoActionPtr&& action)
 
 void meshkernel::CompoundUndoAction::DoCommit()
 {
-    for (const UndoActionPtr& action : m_undoActions)
+    try
     {
-        action->Commit();
+        for (const UndoActionPtr& action : m_undoActions)
+        {
+            action->Commit();
+        }
+    }
+    catch (...)
+    {
+        // Either all actions are committed or none
+        for (const UndoActionPtr& action : m_undoActions | std::views::reverse)
+        {
+            action->Restore();
+        }
+        throw;
     }
 }
 
 void meshkernel::CompoundUndoAction::DoRestore()
 {
-    for (const UndoActionPtr& action : m_undoActions | std::views::reverse)
+    try
     {
-        action->Restore();
+        for (const UndoActionPtr& action : m_undoActions | std::views::reverse)
+        {
+            action->Restore();
+        }
+    }
+    catch (...)
+    {
+        // Either all actions are restored or none
+        for (const UndoActionPtr& action : m_undoActions)
+        {
+            action->Commit();
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 2cc01dcd2402cd9f9148d26680214170ed5e05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:42 +0000
Subject: [PATCH 51/72] fix: resizing a matrix keeps it intact when the
 allocation fails

---
 .../include/MeshKernel/Utilities/LinearAlgebra.hpp          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Utilities/LinearAlgebra.hpp b/libs/MeshKernel/include/MeshKernel/Utilities/LinearAlgebra.hpp
index 670b7b3..ccfc2ea 100644
--- a/libs/MeshKernel/include/MeshKernel/Utilities/LinearAlgebra.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Utilities/LinearAlgebra.hpp
@@ -88,8 +88,10 @@ namespace lin_alg
 
         if (resize && !preserve)
         {
-            matrix.resize(rows, cols);
-            matrix.fill(fill_value);
+            // Eigen releases the data of a matrix before it allocates the new size, if that fails the matrix can not be used nor destroyed
+            Matrix<T, storage> resized(rows, cols);
+            resized.fill(fill_value);
+            matrix.swap(resized);
         }
 
         if (resize && preserve)
-- 
2.43.0


From 6551a446fa104c1ce502ba97e763f002fa33d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 52/72] fix: a node or edge that cannot be inserted leaves the
 mesh as it was

---
 libs/MeshKernel/src/Mesh.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 364b7ff..4f07d3a 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -473,11 +473,13 @@ std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddNodeAction>> Mesh::I
 {
     const auto newNodeIndex = GetNumNodes();
 
-    m_nodes.resize(newNodeIndex + 1);
+    std::unique_ptr<AddNodeAction> undoAction = AddNodeAction::Create(*this, newNodeIndex, newPoint);
+
     m_nodesNumEdges.resize(newNodeIndex + 1);
     m_nodesEdges.resize(newNodeIndex + 1);
+    // the nodes come last: if an allocation fails then there is no node without administration
+    m_nodes.resize(newNodeIndex + 1);
 
-    std::unique_ptr<AddNodeAction> undoAction = AddNodeAction::Create(*this, newNodeIndex, newPoint);
     CommitAction(*undoAction);
 
     return {newNodeIndex, std::move(undoAction)};
@@ -492,9 +494,9 @@ std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddEdgeAction>> Mesh::C
 
     // increment the edges container
     const auto newEdgeIndex = GetNumEdges();
-    m_edges.resize(newEdgeIndex + 1);
-
     std::unique_ptr<AddEdgeAction> undoAction = AddEdgeAction::Create(*this, newEdgeIndex, startNode, endNode);
+
+    m_edges.resize(newEdgeIndex + 1);
     CommitAction(*undoAction);
     return {newEdgeIndex, std::move(undoAction)};
 }
-- 
2.43.0


From 84a15a559df0e10e3d354c57838f30ff18adbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 53/72] fix: grid from splines session is there only when its
 initialization succeeded

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 2c099e9..287e5f4 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4163,9 +4163,10 @@ namespace meshkernelapi
             auto spline = std::make_shared<meshkernel::Splines>(meshKernelState[meshKernelId].m_projection);
             SetSplines(geometryList, *spline);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
+            auto curvilinearGridFromSplines = std::make_unique<meshkernel::CurvilinearGridFromSplines>(spline, curvilinearParameters, splinesToCurvilinearParameters);
 
-            meshKernelState[meshKernelId].m_curvilinearGridFromSplines->Initialize();
+            curvilinearGridFromSplines->Initialize();
+            meshKernelState[meshKernelId].m_curvilinearGridFromSplines = std::move(curvilinearGridFromSplines);
         }
         catch (...)
         {
-- 
2.43.0


From 1fccf9ffea07e86aef80602c1d660ec9e2ee7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:39 +0000
Subject: [PATCH 54/72] fix: operations on a curvilinear grid use the active
 nodes only and a copy of a grid keeps its projection

---
 .../CurvilinearGrid/CurvilinearGrid.hpp       | 22 ++++++++++++--
 .../src/CurvilinearGrid/CurvilinearGrid.cpp   | 30 ++++++++++++-------
 .../CurvilinearGridRefinementUndoAction.cpp   |  2 +-
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 3f04b0b..7d85e73 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -398,17 +398,33 @@ namespace meshkernel
         /// @brief Get a copy of the nodes matrix
         /// @note:the m dimension is the first (or row) index, the n dimension is the second (or column) index
         /// @return a copy of the matrix
-        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes; }
+        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes.block(m_startOffset.m_n, m_startOffset.m_m, NumN(), NumM()); }
 
         /// @brief Get the array of nodes at an m-dimension index
         /// @param [in] m the m-dimension index
         /// @return a vector of N nodes
-        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_m); }
+        std::vector<Point> GetNodeVectorAtM(UInt m) const
+        {
+            std::vector<Point> nodes(NumM());
+            for (UInt i = 0; i < NumM(); ++i)
+            {
+                nodes[i] = GetNode(m, i);
+            }
+            return nodes;
+        }
 
         /// @brief Get the array of nodes at an n-dimension index
         /// @param [in] n the n-dimension index
         /// @return a vector of M nodes
-        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_n); }
+        std::vector<Point> GetNodeVectorAtN(UInt n) const
+        {
+            std::vector<Point> nodes(NumN());
+            for (UInt i = 0; i < NumN(); ++i)
+            {
+                nodes[i] = GetNode(i, n);
+            }
+            return nodes;
+        }
 
         /// @brief Compute a sequence of one or more outer boundary polygons separated by geometry separators
         /// @param[in]  lowerLeft   The node index of the lower left corner
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 115a540..93f32fe 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,29 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_edges(grid.m_edges),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_edges(std::move(grid.m_edges)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
@@ -108,27 +114,25 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
     if (this != &copy)
     {
         m_projection = copy.m_projection;
-        m_gridNodes = copy.m_gridNodes;
         m_gridFacesMask = copy.m_gridFacesMask;
         m_gridNodesTypes = copy.m_gridNodesTypes;
-        m_gridIndices = copy.m_gridIndices;
 
         m_nodesRTreeRequiresUpdate = true;
         m_edgesRTreeRequiresUpdate = true;
         m_facesRTreeRequiresUpdate = true;
 
-        m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
-        m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Nodes, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Edges, RTreeFactory::Create(m_projection));
+        m_RTrees.insert_or_assign(Location::Faces, RTreeFactory::Create(m_projection));
 
         m_boundingBoxCache = copy.m_boundingBoxCache;
 
         m_edges = copy.m_edges;
 
+        SetGridNodes(copy.m_gridNodes);
         m_startOffset = copy.m_startOffset;
         m_endOffset = copy.m_endOffset;
-
-        SetGridNodes(m_gridNodes);
+        m_gridIndices = copy.m_gridIndices;
     }
 
     return *this;
@@ -142,6 +146,8 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
     }
 
     m_gridNodes = gridNodes;
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
@@ -158,6 +164,8 @@ void CurvilinearGrid::SetGridNodes(lin_alg::Matrix<Point>&& gridNodes)
     }
 
     m_gridNodes = std::move(gridNodes);
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
diff --git a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
index 357cb9f..d061fb6 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
@@ -7,7 +7,7 @@ std::unique_ptr<meshkernel::CurvilinearGridRefinementUndoAction> meshkernel::Cur
 }
 
 meshkernel::CurvilinearGridRefinementUndoAction::CurvilinearGridRefinementUndoAction(CurvilinearGrid& grid)
-    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(grid.StartOffset()), m_endOffset(grid.EndOffset()) {}
+    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(0, 0), m_endOffset(0, 0) {}
 
 void meshkernel::CurvilinearGridRefinementUndoAction::Swap(lin_alg::Matrix<Point>& nodes, CurvilinearGridNodeIndices& startOffset, CurvilinearGridNodeIndices& endOffset)
 {
-- 
2.43.0


From 39c33d87555ea3f1ca9550b4515ee2a9cdd9ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:09 +0000
Subject: [PATCH 55/72] fix: search trees of a mesh follow a change of its
 projection

---
 libs/MeshKernel/include/MeshKernel/Mesh.hpp |  1 +
 libs/MeshKernel/src/Mesh.cpp                | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/Mesh.hpp b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
index 8610a0d..7fe1243 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh.hpp
@@ -508,6 +508,7 @@ namespace meshkernel
         bool m_edgesRTreeRequiresUpdate = true;                            ///< m_edgesRTree requires an update
         bool m_facesRTreeRequiresUpdate = true;                            ///< m_facesRTree requires an update
         std::unordered_map<Location, std::unique_ptr<RTreeBase>> m_RTrees; ///< The RTrees to use
+        Projection m_RTreesProjection = Projection::cartesian;             ///< The projection of the RTrees
         BoundingBox m_boundingBoxCache;                                    ///< Caches the last bounding box used for selecting the locations
 
         /// @brief Set all R-trees to be rebuilt before their next use.
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4f07d3a..2c80b72 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -47,6 +47,7 @@ Mesh::Mesh() : Mesh(Projection::cartesian)
 Mesh::Mesh(Projection projection) : m_projection(projection)
 {
 
+    m_RTreesProjection = m_projection;
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
@@ -59,6 +60,7 @@ Mesh::Mesh(const std::vector<Edge>& edges,
                                     m_edges(edges)
 
 {
+    m_RTreesProjection = m_projection;
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
@@ -1203,6 +1205,17 @@ void Mesh::RequireRTreesUpdate()
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    if (m_RTreesProjection != m_projection)
+    {
+        // The projection of the mesh has been changed, the distances in the trees are those of the projection
+        for (auto& [treeLocation, tree] : m_RTrees)
+        {
+            tree = RTreeFactory::Create(m_projection);
+        }
+        RequireRTreesUpdate();
+        m_RTreesProjection = m_projection;
+    }
+
     if (m_boundingBoxCache != boundingBox)
     {
         // The trees of the other locations have been built for another bounding box as well
-- 
2.43.0


From 1be5a1249208a3be96d5e6b73170cd351fb92a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:04 +0000
Subject: [PATCH 56/72] fix: joining, connecting and de-refining a mesh leave
 the mesh as it was when they fail

---
 libs/MeshKernel/src/CasulliDeRefinement.cpp | 15 ++++++++-------
 libs/MeshKernel/src/Mesh.cpp                | 13 +++++++++++--
 libs/MeshKernelApi/src/MeshKernel.cpp       | 14 +++++++++++---
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CasulliDeRefinement.cpp b/libs/MeshKernel/src/CasulliDeRefinement.cpp
index c63baf4..bf70d8d 100644
--- a/libs/MeshKernel/src/CasulliDeRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliDeRefinement.cpp
@@ -43,21 +43,22 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliDeRefinement::Compute(Mesh2D& mesh, const Polygons& polygon)
 {
     std::unique_ptr<FullUnstructuredGridUndo> refinementAction = FullUnstructuredGridUndo::Create(mesh);
-    const std::vector<Point> meshNodes(mesh.Nodes());
-    const std::vector<Edge> meshEdges(mesh.Edges());
 
-    if (DoDeRefinement(mesh, polygon))
+    try
     {
+        if (!DoDeRefinement(mesh, polygon))
+        {
+            throw AlgorithmError("Unable to compute the Casulli de-refinement");
+        }
+
         mesh.DeleteInvalidNodesAndEdges();
         mesh.Administrate();
     }
-    else
+    catch (...)
     {
         // The de-refinement failed, restore the original mesh
         refinementAction->Restore();
-        // Reset the undo action to a null action
-        refinementAction.reset(nullptr);
-        throw AlgorithmError("Unable to compute the Casulli de-refinement");
+        throw;
     }
 
     return refinementAction;
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 2c80b72..7884fbe 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1007,8 +1007,9 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
 
     auto const numNodes = GetNumNodes();
     auto const numEdges = GetNumEdges();
-    m_edges.resize(GetNumEdges() + rhsNumEdges);
+    // the nodes come first: if an allocation fails then there is no edge without nodes
     m_nodes.resize(GetNumNodes() + rhsNumNodes);
+    m_edges.resize(GetNumEdges() + rhsNumEdges, {constants::missing::uintValue, constants::missing::uintValue});
 
     // copy mesh nodes
     for (auto n = numNodes; n < numNodes + rhsNumNodes; ++n)
@@ -1036,7 +1037,15 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
 std::unique_ptr<meshkernel::UndoAction> Mesh::Join(const Mesh& rhs)
 {
     std::unique_ptr<FullUnstructuredGridUndo> joinAction = FullUnstructuredGridUndo::Create(*this);
-    *this += rhs;
+    try
+    {
+        *this += rhs;
+    }
+    catch (...)
+    {
+        joinAction->Restore();
+        throw;
+    }
     return joinAction;
 }
 
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 287e5f4..26ee6c0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3765,9 +3765,17 @@ namespace meshkernelapi
             auto undoAction = meshkernel::FullUnstructuredGridUndo::Create(*meshKernelState[meshKernelId].m_mesh2d);
             // The undo information collected from the ConnectMeshes::Compute is not needed here.
             [[maybe_unused]] auto undo = meshkernel::ConnectMeshes::Compute(*mergedMeshes, searchFraction);
-            meshKernelState[meshKernelId].m_mesh2d->SetNodes(mergedMeshes->Nodes());
-            meshKernelState[meshKernelId].m_mesh2d->SetEdges(mergedMeshes->Edges());
-            meshKernelState[meshKernelId].m_mesh2d->Administrate();
+            try
+            {
+                meshKernelState[meshKernelId].m_mesh2d->SetNodes(mergedMeshes->Nodes());
+                meshKernelState[meshKernelId].m_mesh2d->SetEdges(mergedMeshes->Edges());
+                meshKernelState[meshKernelId].m_mesh2d->Administrate();
+            }
+            catch (...)
+            {
+                undoAction->Restore();
+                throw;
+            }
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From a2578ffd093cefb01a3356d08fa3f972ef76f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:56 +0000
Subject: [PATCH 57/72] fix: a failure inside a parallel loop is reported
 instead of ending the program

---
 .../include/MeshKernel/Exceptions.hpp         | 48 ++++++++++++++
 libs/MeshKernel/include/MeshKernel/Mesh2D.hpp | 10 +++
 .../include/MeshKernel/MeshConversion.hpp     | 10 ++-
 libs/MeshKernel/src/Mesh2D.cpp                | 65 +++++++++++--------
 .../src/OrthogonalizationAndSmoothing.cpp     |  5 +-
 5 files changed, 108 insertions(+), 30 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Exceptions.hpp b/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
index fe09c3a..5970e35 100644
--- a/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Exceptions.hpp
@@ -33,6 +33,7 @@
 
 #include <algorithm>
 #include <exception>
+#include <mutex>
 #include <source_location>
 #include <sstream>
 #include <stdexcept>
@@ -367,4 +368,51 @@ namespace meshkernel
         }
     };
 
+    /// @brief Carries an exception out of a parallel loop
+    ///
+    /// An exception must not leave an iteration of an OpenMP loop. It is kept here and thrown after the loop.
+    class ParallelLoopException
+    {
+    public:
+        /// @brief Run an iteration of a parallel loop, keep the exception it throws, if any
+        template <typename Iteration>
+        void Run(const int index, Iteration&& iteration)
+        {
+            try
+            {
+                iteration();
+            }
+            catch (...)
+            {
+                Keep(index, std::current_exception());
+            }
+        }
+
+        /// @brief Throw the exception of the first iteration that failed, to be called after the loop
+        void Rethrow() const
+        {
+            if (m_exception != nullptr)
+            {
+                std::rethrow_exception(m_exception);
+            }
+        }
+
+    private:
+        /// @brief Keep the exception of the iteration with the smallest index, which does not depend on the threads
+        void Keep(const int index, const std::exception_ptr& exception)
+        {
+            const std::lock_guard lock(m_mutex);
+
+            if (m_exception == nullptr || index < m_index)
+            {
+                m_exception = exception;
+                m_index = index;
+            }
+        }
+
+        std::mutex m_mutex;             ///< Guards the exception
+        std::exception_ptr m_exception; ///< The exception that was thrown in the loop
+        int m_index = 0;                ///< The index of the iteration that threw the exception
+    };
+
 } // namespace meshkernel
diff --git a/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp b/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
index ce89c01..ce4a3d3 100644
--- a/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Mesh2D.hpp
@@ -432,6 +432,16 @@ namespace meshkernel
                                 std::vector<UInt>& sortedNodes,
                                 std::vector<Point>& nodalValues);
 
+        /// @brief Compute the circumcenter, and optionally the mass center and the area, of a face
+        /// @param[in] f The index of the face
+        /// @param[in] computeMassCenters Compute the mass center and the area as well
+        /// @param[in,out] polygonNodesCache The caching array for the nodes of the face
+        /// @param[in,out] numEdgeFacesCache The caching array for the number of faces of the edges of the face
+        void ComputeFaceCircumcenterMassCenterAndArea(int f,
+                                                      bool computeMassCenters,
+                                                      std::vector<Point>& polygonNodesCache,
+                                                      std::vector<UInt>& numEdgeFacesCache);
+
         /// @brief Checks if a triangle has an acute angle (checktriangle)
         /// @param[in] faceNodes The face nodes composing the triangles
         /// @param[in] nodes The node coordinates
diff --git a/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp b/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
index 92472ae..67f6960 100644
--- a/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
+++ b/libs/MeshKernel/include/MeshKernel/MeshConversion.hpp
@@ -80,12 +80,14 @@ namespace meshkernel
             std::vector<Point> targetNodes(targetMesh.Nodes());
             std::unique_ptr<MeshConversionAction> undoAction = MeshConversionAction::Create(targetMesh);
 
+            ParallelLoopException loopException;
 #pragma omp parallel for
             for (int i = 0; i < static_cast<int>(sourceMesh.GetNumNodes()); ++i)
             {
                 if (sourceMesh.Node(i).IsValid())
                 {
-                    targetNodes[i] = conversion(sourceMesh.Node(i));
+                    loopException.Run(i, [&]()
+                                      { targetNodes[i] = conversion(sourceMesh.Node(i)); });
                 }
                 else
                 {
@@ -103,6 +105,7 @@ namespace meshkernel
                 }
 #endif
             }
+            loopException.Rethrow();
 
             targetMesh.SetNodes(targetNodes);
             targetMesh.Administrate();
@@ -122,12 +125,14 @@ namespace meshkernel
             std::vector<Point> nodes(mesh.Nodes());
             std::unique_ptr<MeshConversionAction> undoAction = MeshConversionAction::Create(mesh);
 
+            ParallelLoopException loopException;
 #pragma omp parallel for
             for (int i = 0; i < static_cast<int>(mesh.GetNumNodes()); ++i)
             {
                 if (nodes[i].IsValid())
                 {
-                    nodes[i] = conversion(nodes[i]);
+                    loopException.Run(i, [&]()
+                                      { nodes[i] = conversion(nodes[i]); });
                 }
 #if 0
                 if (mesh.Node(i).IsValid())
@@ -136,6 +141,7 @@ namespace meshkernel
                 }
 #endif
             }
+            loopException.Rethrow();
 
             mesh.SetNodes(nodes);
             mesh.m_projection = conversion.TargetProjection();
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 6f678f4..db8beba 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -669,41 +669,52 @@ void Mesh2D::ComputeCircumcentersMassCentersAndFaceAreas(bool computeMassCenters
     std::vector<UInt> numEdgeFacesCache;
     numEdgeFacesCache.reserve(m_maximumNumberOfEdgesPerFace);
     std::vector<Point> polygonNodesCache;
+    ParallelLoopException loopException;
 #pragma omp parallel for private(numEdgeFacesCache, polygonNodesCache)
     for (int f = 0; f < numFaces; f++)
     {
-        // need to account for spherical coordinates. Build a polygon around a face
-        ComputeFaceClosedPolygon(f, polygonNodesCache);
+        loopException.Run(f, [&]()
+                          { ComputeFaceCircumcenterMassCenterAndArea(f, computeMassCenters, polygonNodesCache, numEdgeFacesCache); });
+    }
+    loopException.Rethrow();
+}
 
-        if (computeMassCenters)
-        {
-            const auto [area, centerOfMass, direction] = Polygon::FaceAreaAndCenterOfMass(polygonNodesCache, m_projection);
-            m_faceArea[f] = area;
-            m_facesMassCenters[f] = centerOfMass;
-        }
+void Mesh2D::ComputeFaceCircumcenterMassCenterAndArea(const int f,
+                                                      const bool computeMassCenters,
+                                                      std::vector<Point>& polygonNodesCache,
+                                                      std::vector<UInt>& numEdgeFacesCache)
+{
+    // need to account for spherical coordinates. Build a polygon around a face
+    ComputeFaceClosedPolygon(f, polygonNodesCache);
 
-        UInt numberOfInteriorEdges = 0;
-        const auto numberOfFaceNodes = static_cast<int>(GetNumFaceEdges(f));
-        for (int n = 0; n < numberOfFaceNodes; n++)
-        {
-            if (!IsEdgeOnBoundary(m_facesEdges[f][n]))
-            {
-                numberOfInteriorEdges += 1;
-            }
-        }
-        if (numberOfInteriorEdges == 0)
-        {
-            m_facesCircumcenters[f] = m_facesMassCenters[f];
-            continue;
-        }
-        numEdgeFacesCache.clear();
-        for (int n = 0; n < numberOfFaceNodes; n++)
+    if (computeMassCenters)
+    {
+        const auto [area, centerOfMass, direction] = Polygon::FaceAreaAndCenterOfMass(polygonNodesCache, m_projection);
+        m_faceArea[f] = area;
+        m_facesMassCenters[f] = centerOfMass;
+    }
+
+    UInt numberOfInteriorEdges = 0;
+    const auto numberOfFaceNodes = static_cast<int>(GetNumFaceEdges(f));
+    for (int n = 0; n < numberOfFaceNodes; n++)
+    {
+        if (!IsEdgeOnBoundary(m_facesEdges[f][n]))
         {
-            numEdgeFacesCache.emplace_back(m_edgesNumFaces[m_facesEdges[f][n]]);
+            numberOfInteriorEdges += 1;
         }
-
-        m_facesCircumcenters[f] = ComputeFaceCircumenter(polygonNodesCache, numEdgeFacesCache);
     }
+    if (numberOfInteriorEdges == 0)
+    {
+        m_facesCircumcenters[f] = m_facesMassCenters[f];
+        return;
+    }
+    numEdgeFacesCache.clear();
+    for (int n = 0; n < numberOfFaceNodes; n++)
+    {
+        numEdgeFacesCache.emplace_back(m_edgesNumFaces[m_facesEdges[f][n]]);
+    }
+
+    m_facesCircumcenters[f] = ComputeFaceCircumenter(polygonNodesCache, numEdgeFacesCache);
 }
 
 void Mesh2D::ClassifyNodes()
diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 9e5a730..2c17a0d 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -247,11 +247,14 @@ void OrthogonalizationAndSmoothing::Solve()
         throw AlgorithmError("The outer iteration has not been prepared.");
     }
 
+    ParallelLoopException loopException;
 #pragma omp parallel for
     for (int n = 0; n < static_cast<int>(m_mesh.GetNumNodes()); n++)
     {
-        UpdateNodeCoordinates(n);
+        loopException.Run(n, [&]()
+                          { UpdateNodeCoordinates(n); });
     }
+    loopException.Rethrow();
 
     // update mesh node coordinates
     m_mesh.SetNodes(m_orthogonalCoordinates);
-- 
2.43.0


From f4b07ea0de44ef84f7653a4e06e7f897780be84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:31 +0000
Subject: [PATCH 58/72] fix: an empty 1d mesh follows the projection of the
 state when the 2d mesh is converted

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 26ee6c0..ff4ab7c 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1097,6 +1097,15 @@ namespace meshkernelapi
                 auto undoAction = meshkernel::CompoundUndoAction::Create();
                 undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
 
+                // A 1d mesh without nodes has the projection of the state
+                auto mesh1d = meshKernelState[meshKernelId].m_mesh1d;
+                if (mesh1d->GetNumNodes() == 0)
+                {
+                    mesh1d = std::make_shared<meshkernel::Mesh1D>(sourceProjection == meshkernel::Projection::cartesian
+                                                                      ? meshkernel::Projection::spherical
+                                                                      : meshkernel::Projection::cartesian);
+                }
+
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
@@ -1116,6 +1125,7 @@ namespace meshkernelapi
                                                       meshkernel::ProjectionToString(targetProjection));
                 }
 
+                meshKernelState[meshKernelId].m_mesh1d = mesh1d;
                 meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
             }
         }
-- 
2.43.0


From a7f575680541af88c0ca805449f1eeaa9c0c56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:25 +0000
Subject: [PATCH 59/72] fix: undo of a curvilinear line mirror at the left
 boundary restores the mirrored line

The block of nodes saved for the undo action was transposed for the left
boundary, so nodes that the mirror changed were not restored.
---
 .../src/CurvilinearGrid/CurvilinearGridLineMirror.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..70aba04 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -91,8 +91,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From 1397bdb96a5e3b69fdd12d0bd260154e16f8c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:25 +0000
Subject: [PATCH 60/72] fix: check curvilinear grid node indices against the
 visible grid

GetNode compared its indices with the size of the storage, but reads with the
start offset added, so after an undone grid line a node outside the storage
could be read.
---
 .../CurvilinearGrid/CurvilinearGrid.hpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 7d85e73..4a27d7a 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -555,14 +555,14 @@ inline meshkernel::CurvilinearGridNodeIndices meshkernel::CurvilinearGrid::EndOf
 inline meshkernel::Point& meshkernel::CurvilinearGrid::GetNode(const UInt n, const UInt m)
 {
 
-    if (n >= m_gridNodes.rows()) [[unlikely]]
+    if (n >= NumN()) [[unlikely]]
     {
-        throw ConstraintError("Invalid row index {} >= {}", n, m_gridNodes.rows());
+        throw ConstraintError("Invalid row index {} >= {}", n, NumN());
     }
 
-    if (m >= m_gridNodes.cols()) [[unlikely]]
+    if (m >= NumM()) [[unlikely]]
     {
-        throw ConstraintError("Invalid column index {} >= {}", m, m_gridNodes.cols());
+        throw ConstraintError("Invalid column index {} >= {}", m, NumM());
     }
 
     m_nodesRTreeRequiresUpdate = true;
@@ -575,14 +575,14 @@ inline meshkernel::Point& meshkernel::CurvilinearGrid::GetNode(const UInt n, con
 meshkernel::Point const& meshkernel::CurvilinearGrid::GetNode(const UInt n, const UInt m) const
 {
 
-    if (n >= m_gridNodes.rows()) [[unlikely]]
+    if (n >= NumN()) [[unlikely]]
     {
-        throw ConstraintError("Invalid row index {} >= {}", n, m_gridNodes.rows());
+        throw ConstraintError("Invalid row index {} >= {}", n, NumN());
     }
 
-    if (m >= m_gridNodes.cols()) [[unlikely]]
+    if (m >= NumM()) [[unlikely]]
     {
-        throw ConstraintError("Invalid column index {} >= {}", m, m_gridNodes.cols());
+        throw ConstraintError("Invalid column index {} >= {}", m, NumM());
     }
     return m_gridNodes(n + m_startOffset.m_n, m + m_startOffset.m_m);
 }
-- 
2.43.0


From f422e22d10694268ea72daf8f77d52c499ecbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:25 +0000
Subject: [PATCH 61/72] fix: keep the state's projection when a curvilinear
 grid is converted to a mesh

The empty grid that replaces the converted one was always Cartesian, so later
grid operations in a spherical state failed on a projection mismatch.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index ff4ab7c..08e6eb0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4838,7 +4838,7 @@ namespace meshkernelapi
             undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())));
 
             // curvilinear grid must be reset to an empty curvilinear grid
-            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>();
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 0173de5d948aa66363666cb3e871af1929474529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:20 +0000
Subject: [PATCH 62/72] fix: make_rectangular_mesh_on_extension uses the
 projection of the state, not one that is out of date

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 08e6eb0..98660c6 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1845,7 +1845,7 @@ namespace meshkernelapi
             const auto edges = curvilinearGrid->ComputeEdges();
             const auto nodes = curvilinearGrid->ComputeNodes();
 
-            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())),
+            meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, projection)),
                                     meshKernelId);
         }
         catch (...)
-- 
2.43.0


From 0bfc80bb98dcc29c7a15dfc019b168d1deda4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:37 +0000
Subject: [PATCH 63/72] fix: offset of polygons with inner polygons or of
 several polygons uses the points of each polygon and separates them

---
 libs/MeshKernel/src/Polygons.cpp | 41 ++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..14bc108 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,37 +190,42 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
+    newPolygonPoints.reserve(GetNumNodes() + (innerAndOuter ? GetNumNodes() + 1 : 0));
 
     for (const PolygonalEnclosure& enclosure : m_enclosures)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
+        // When both sides are asked for, the points of the other side follow those of the first, with a separator in between
+        std::vector<std::vector<Point>> offsetPoints;
+        offsetPoints.push_back(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
 
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            offsetPoints.push_back(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
         }
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+        for (size_t side = 0; side < (innerAndOuter ? 2 : 1); ++side)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
+            if (!newPolygonPoints.empty())
+            {
+                newPolygonPoints.push_back(outerSeparator);
+            }
 
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
+            for (size_t i = 0; i < offsetPoints.size(); ++i)
             {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
+                if (i > 0)
+                {
+                    newPolygonPoints.push_back(innerSeparator);
+                }
+
+                const size_t size = i == 0 ? enclosure.Outer().Size() : enclosure.Inner(i - 1).Size();
+                const auto first = offsetPoints[i].begin() + side * (size + 1);
+                newPolygonPoints.insert(newPolygonPoints.end(), first, first + size);
             }
         }
-
-        // Probably add outer separator here (if not the last)
     }
 
     // set the new polygon
-- 
2.43.0


From 165ed181d8c5e485fac0aa2fc9526b89c58e382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:21 +0000
Subject: [PATCH 64/72] fix: growing a grid from splines reports that the check
 for front collisions is not implemented, instead of never ending

---
 .../src/CurvilinearGrid/CurvilinearGridFromSplines.cpp        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
index 96b1228..b1c015c 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp
@@ -610,7 +610,6 @@ namespace meshkernel
 
         double totalTimeStep = 0.0;
         double localTimeStep = 0.0;
-        double otherTimeStep = std::numeric_limits<double>::max();
         const auto numGridPoints = static_cast<UInt>(m_gridPoints.size());
         std::vector<UInt> newValidFrontNodes(numGridPoints);
 
@@ -633,9 +632,8 @@ namespace meshkernel
             if (m_splinesToCurvilinearParameters.check_front_collisions)
             {
                 // TODO: implement front collisions
-                otherTimeStep = 0;
+                throw NotImplementedError("The check for front collisions is not implemented");
             }
-            localTimeStep = std::min(localTimeStep, otherTimeStep);
 
             // remove isolated points at the start end end of the masl
             if (newValidFrontNodes[0] == 1 && newValidFrontNodes[1] == 0)
-- 
2.43.0


From 676f2a87cf4d7d97d99f50bc275fca5dffe77723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:21 +0000
Subject: [PATCH 65/72] fix: removing invalid nodes and edges makes the search
 trees out of date

---
 libs/MeshKernel/src/Mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 7884fbe..d9e6c94 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -251,6 +251,9 @@ void Mesh::DeleteInvalidNodesAndEdges()
     const auto endEdgeVector = std::remove_if(m_edges.begin(), m_edges.end(), [](const Edge& e)
                                               { return e.first == constants::missing::uintValue || e.second == constants::missing::uintValue; });
     m_edges.erase(endEdgeVector, m_edges.end());
+
+    // The indices in the trees are those before the removal
+    RequireRTreesUpdate();
 }
 
 void Mesh::SetUnConnectedNodesAndEdgesToInvalid(CompoundUndoAction* undoAction)
-- 
2.43.0


From de5f3375d3044f25dc78a0c9ea568d11a85a4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:04 +0000
Subject: [PATCH 66/72] fix: a line shift does not move nodes outside the
 selected part of the line

---
 .../MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index b0cadce..d44cdb8 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -65,7 +65,7 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
 
     const double eps = 1e-5;
     auto previousCoordinate = m_lines[0].m_startCoordinate;
-    for (UInt i = 1; i <= m_lines[0].m_endCoordinate; ++i)
+    for (UInt i = m_lines[0].m_startCoordinate + 1; i <= m_lines[0].m_endCoordinate; ++i)
     {
         auto const currentNodeIndex = m_lines[0].GetNodeIndexFromCoordinate(i);
 
-- 
2.43.0


From c23cf75fc8f4c461e2a666e55ebeb809c1a2b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 67/72] fix: a line shift leaves missing nodes missing

---
 .../CurvilinearGridLineShift.cpp              | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index d44cdb8..260a645 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -58,10 +58,15 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
 
     std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {startN, startM}, {endN + 1, endM + 1});
 
+    // Nodes can be missing in the grid, or have been deleted since the line shift was started
+    auto const isValidNode = [this](CurvilinearGridNodeIndices const& node)
+    { return m_grid.GetNode(node.m_n, node.m_m).IsValid() && m_originalGrid.GetNode(node.m_n, node.m_m).IsValid(); };
+
+    auto const computeDelta = [this, &isValidNode](CurvilinearGridNodeIndices const& node)
+    { return isValidNode(node) ? m_grid.GetNode(node.m_n, node.m_m) - m_originalGrid.GetNode(node.m_n, node.m_m) : Point{0.0, 0.0}; };
+
     /// The first delta
-    auto const previousNodeIndex = m_lines[0].m_startNode;
-    auto previousDelta = m_grid.GetNode(previousNodeIndex.m_n, previousNodeIndex.m_m) -
-                         m_originalGrid.GetNode(previousNodeIndex.m_n, previousNodeIndex.m_m);
+    auto previousDelta = computeDelta(m_lines[0].m_startNode);
 
     const double eps = 1e-5;
     auto previousCoordinate = m_lines[0].m_startCoordinate;
@@ -69,8 +74,7 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
     {
         auto const currentNodeIndex = m_lines[0].GetNodeIndexFromCoordinate(i);
 
-        auto const currentDelta = m_grid.GetNode(currentNodeIndex.m_n, currentNodeIndex.m_m) -
-                                  m_originalGrid.GetNode(currentNodeIndex.m_n, currentNodeIndex.m_m);
+        auto const currentDelta = computeDelta(currentNodeIndex);
 
         if (std::abs(currentDelta.x) < eps && std::abs(currentDelta.y) < eps && i != m_lines[0].m_endCoordinate)
         {
@@ -85,6 +89,11 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
 
             auto const nodeIndex = m_lines[0].GetNodeIndexFromCoordinate(j);
 
+            if (!isValidNode(nodeIndex))
+            {
+                continue;
+            }
+
             auto const firstFactor = static_cast<double>(j - previousCoordinate) / static_cast<double>(i - previousCoordinate);
             auto const secondFactor = 1.0 - firstFactor;
 
@@ -127,7 +136,7 @@ void CurvilinearGridLineShift::TransformGrid(CurvilinearGridNodeIndices const& n
             m_lines[0].IsMGridLine() ? node.m_m : i,
         };
 
-        if (!m_originalGrid.GetNode(currentNode.m_n, currentNode.m_m).IsValid())
+        if (!m_originalGrid.GetNode(currentNode.m_n, currentNode.m_m).IsValid() || !m_grid.GetNode(currentNode.m_n, currentNode.m_m).IsValid())
         {
             continue;
         }
-- 
2.43.0


From 5ba63b2551df7bf3f7c07f3691a626b5c3ef9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 68/72] fix: a join of meshes that fails gives back the nodes
 and edges, also when memory stays short

---
 libs/MeshKernel/src/Mesh.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d9e6c94..7b3c3e9 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -898,6 +898,9 @@ void Mesh::AdministrateNodesEdges(CompoundUndoAction* undoAction)
     // return if there are no nodes or no edges
     if (m_nodes.empty() || m_edges.empty())
     {
+        m_nodesEdges.resize(m_nodes.size());
+        m_nodesNumEdges.resize(m_nodes.size());
+        std::ranges::fill(m_nodesNumEdges, 0);
         return;
     }
 
@@ -1046,7 +1049,17 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::Join(const Mesh& rhs)
     }
     catch (...)
     {
-        joinAction->Restore();
+        // The nodes and edges are those before the join, also when there is no memory for their administration
+        joinAction->Swap(m_nodes, m_edges);
+        RequireRTreesUpdate();
+        try
+        {
+            Administrate();
+        }
+        catch (...)
+        {
+            // The cause of the failure is reported below
+        }
         throw;
     }
     return joinAction;
-- 
2.43.0


From 3666a1cec7d02845666735bac205f7da23af9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 69/72] fix: removing grid nodes that belong to no face is part
 of the undo step of a curvilinear edit

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp       | 15 +++++++++++++--
 .../CurvilinearGrid/CurvilinearGridLineMirror.cpp | 14 +++++++++++++-
 .../CurvilinearGridOrthogonalization.cpp          |  6 ++----
 .../CurvilinearGrid/CurvilinearGridSmoothing.cpp  | 14 +++++++-------
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 93f32fe..9be972d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -697,11 +697,22 @@ meshkernel::UndoActionPtr CurvilinearGrid::InsertFace(Point const& point)
         throw std::invalid_argument("CurvilinearGrid::InsertFace: no valid nodes found");
     }
 
-    // Compute the grid node types
+    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
+
+    // Compute the grid node types, this may remove any number of nodes, so all nodes have to be saved
+    undoAction->Add(CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()}));
     ComputeGridNodeTypes();
 
     // Add a new edge
-    UndoActionPtr undoAction = AddEdge(firstNode, secondNode);
+    try
+    {
+        undoAction->Add(AddEdge(firstNode, secondNode));
+    }
+    catch (...)
+    {
+        undoAction->Restore();
+        throw;
+    }
 
     // Re-compute quantities
     ComputeGridNodeTypes();
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index 70aba04..fd27751 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -61,8 +61,20 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
     const auto startNode = m_lines[0].m_startNode;
     const auto endNode = m_lines[0].m_endNode;
 
+    // Computing the node types may remove any number of nodes, so all nodes have to be saved
+    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()}));
     m_grid.ComputeGridNodeTypes();
-    auto const gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
+
+    CurvilinearGrid::BoundaryGridLineType gridLineType;
+    try
+    {
+        gridLineType = m_grid.GetBoundaryGridLineType(startNode, endNode);
+    }
+    catch (...)
+    {
+        undoAction->Restore();
+        throw;
+    }
 
     auto [addedLine, addGridLineAction] = m_grid.AddGridLineAtBoundary(startNode, endNode);
     m_grid.ComputeGridNodeTypes();
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 1ef843d..c8e5cc9 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -73,10 +73,8 @@ meshkernel::UndoActionPtr CurvilinearGridOrthogonalization::Compute()
         throw std::invalid_argument("CurvilinearGridOrthogonalization::Compute: lower left and upper right corners defining the curvilinear grid block are not set");
     }
 
-    CurvilinearGridNodeIndices upperLimit = m_upperRight;
-    ++upperLimit.m_n;
-    ++upperLimit.m_m;
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, upperLimit);
+    // Computing the node types may remove any number of nodes, so all nodes have to be saved
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Compute the grid node types
     m_grid.ComputeGridNodeTypes();
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
index 49be1c2..5bbfcee 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
@@ -42,18 +42,15 @@ CurvilinearGridSmoothing::CurvilinearGridSmoothing(CurvilinearGrid& grid, UInt s
     // Allocate cache for storing grid nodes values
     // ResizeAndFill2DVector(m_gridNodesCache, static_cast<UInt>(m_grid.m_gridNodes.size()), static_cast<UInt>(m_grid.m_gridNodes[0].size()));
     lin_alg::ResizeAndFillMatrix(m_gridNodesCache, m_grid.NumN(), m_grid.NumM(), true);
-
-    // Compute the grid node types
-    m_grid.ComputeGridNodeTypes();
 }
 
 meshkernel::UndoActionPtr CurvilinearGridSmoothing::Compute()
 {
-    CurvilinearGridNodeIndices upperLimit = m_upperRight;
-    ++upperLimit.m_n;
-    ++upperLimit.m_m;
+    // Computing the node types may remove any number of nodes, so all nodes have to be saved
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, upperLimit);
+    // Compute the grid node types
+    m_grid.ComputeGridNodeTypes();
 
     // Perform smoothing iterations
     for (UInt smoothingIterations = 0; smoothingIterations < m_smoothingIterations; ++smoothingIterations)
@@ -94,6 +91,9 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridSmoothing::ComputeDirectional()
     m_lowerLeft = lowerLeftBlock;
     m_upperRight = upperRightBlock;
 
+    // Compute the grid node types
+    m_grid.ComputeGridNodeTypes();
+
     // Perform smoothing iterations
     for (UInt smoothingIterations = 0; smoothingIterations < m_smoothingIterations; ++smoothingIterations)
     {
-- 
2.43.0


From cd1337a2fbc49aa2289f5565e58006fa752c8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:03 +0000
Subject: [PATCH 70/72] fix: a conversion of a curvilinear grid that runs out
 of memory leaves the 2D mesh as it was

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 98660c6..950b38d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4834,11 +4834,21 @@ namespace meshkernelapi
             // 1. Keep the mesh kernel state to be able to restore (manily) the curvilinear grid and (secondly) other members.
             undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
 
-            // 2. Keep track of the undo required to restore the mesh2d to its pre-converted state.
-            undoAction->Add(meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection())));
-
             // curvilinear grid must be reset to an empty curvilinear grid
-            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_unique<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
+            auto emptyGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
+
+            // 2. Keep track of the undo required to restore the mesh2d to its pre-converted state.
+            meshkernel::UndoActionPtr joinAction = meshKernelState[meshKernelId].m_mesh2d->Join(meshkernel::Mesh2D(edges, nodes, meshKernelState[meshKernelId].m_curvilinearGrid->projection()));
+            try
+            {
+                undoAction->Add(std::move(joinAction));
+            }
+            catch (...)
+            {
+                joinAction->Restore();
+                throw;
+            }
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::move(emptyGrid);
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
-- 
2.43.0


From fa8203c87989b9ed42760e21a1abdd73f6c089f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:59 +0000
Subject: [PATCH 71/72] fix: a grid whose refined nodes do not fit in memory
 keeps its nodes

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 9be972d..9995e3d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -145,7 +145,9 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
         throw std::invalid_argument("CurvilinearGrid::CurvilinearGrid: Invalid curvilinear grid nodes");
     }
 
-    m_gridNodes = gridNodes;
+    // Eigen releases the nodes before it allocates the new size, if that fails the grid can not be used nor destroyed
+    lin_alg::Matrix<Point> newGridNodes(gridNodes);
+    m_gridNodes.swap(newGridNodes);
     m_startOffset = {0, 0};
     m_endOffset = {0, 0};
 
-- 
2.43.0


From b9816e93deadbe64e114f3bc8bdb5cd14c5e1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 72/72] fix: a mesh with an edge that refers to a node that is
 not there is refused

---
 libs/MeshKernel/src/Mesh.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 7b3c3e9..3826d49 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -64,6 +64,18 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+
+    const auto isOutOfRange = [this](const UInt node)
+    { return node != constants::missing::uintValue && node >= m_nodes.size(); };
+
+    for (const auto& [firstNode, secondNode] : m_edges)
+    {
+        if (isOutOfRange(firstNode) || isOutOfRange(secondNode))
+        {
+            throw ConstraintError("Edge ({}, {}) refers to a node that is not in the mesh, the number of nodes is {}.", firstNode, secondNode, m_nodes.size());
+        }
+    }
+
     DeleteInvalidNodesAndEdges();
 }
 
-- 
2.43.0

