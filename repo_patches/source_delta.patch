From 41158e83c4413f868ebd0d9088f078e7cfff0fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 01/25] fix: RefineSerialMesh divided by zero on meshes below
 1000 cells

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 89440078bf3d5d5aa1ae6067bcca8b4333851d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 02/25] fix: Sweeper freed the buffer of a pending nonblocking
 send

---
 src/Sweeper.cc | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..7a11ed5 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -49,6 +49,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "Timer.hh"
 #include <cmath>
 #include <iostream>
+#include <list>
 #include <algorithm>
 #include <omp.h>
 #include <mpi.h>
@@ -105,6 +106,19 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 }
 
 
+/*
+    SendBuffers
+    
+    Holds the data of nonblocking sends until they complete.
+    Lists never move their elements.
+*/
+struct SendBuffers
+{
+    list<vector<UINT>> uints;
+    list<vector<double>> doubles;
+};
+
+
 /*
     send
     
@@ -113,7 +127,7 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          SendBuffers &sendBuffers, vector<MPI_Request> &mpiRequests)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,24 +135,27 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
     
-            Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
+            // The buffers have to stay alive until the sends complete
+            sendBuffers.uints.push_back({nSides, nData});
+            Comm::iSendUIntVector(sendBuffers.uints.back(), proc, tag0, 
+                                  mpiRequest);
             mpiRequests.push_back(mpiRequest);
             if (nSides > 0) {
-                Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
+                sendBuffers.uints.emplace_back();
+                sendBuffers.uints.back().swap(commSidesAngles(angleGroup, proc));
+                Comm::iSendUIntVector(sendBuffers.uints.back(), proc, 
                                      tag1, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
-                Comm::iSendDoubleVector(commPsi(angleGroup, proc), proc, 
+                sendBuffers.doubles.emplace_back();
+                sendBuffers.doubles.back().swap(commPsi(angleGroup, proc));
+                Comm::iSendDoubleVector(sendBuffers.doubles.back(), proc, 
                                         tag2, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
             }
-            
-            commSidesAngles(angleGroup, proc).clear();
-            commPsi(angleGroup, proc).clear();
         }
     }
 }
@@ -421,9 +438,11 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             // Communication (Non blocking send followed by blocking recv)
             vector<MPI_Request> mpiRequests;
+            SendBuffers sendBuffers;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, sendBuffers, 
+                     mpiRequests);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -472,7 +491,9 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                SendBuffers sendBuffers;
+                send(step, angleGroup, commSidesAngles, commPsi, sendBuffers, 
+                     mpiRequests);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
-- 
2.43.0


From c9ffbd540f77c994e6f0093c54bcf20e3d8604d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 03/25] fix: TychoMesh sent a dead stack buffer and matched
 sides by message order

---
 src/TychoMeshIO.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..14ca5d7 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,9 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // Faces are numbered differently on each rank, so the global side is sent too
     vector<MPI_Request> mpiRequests;
+    Mat2<UINT> sendData(3, c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,10 +306,11 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT side = c_side(cell, face);
+            sendData(0, side) = cell;
+            sendData(1, side) = face;
+            sendData(2, side) = c_lGSides(side);
+            MPI_Isend(&sendData(0, side), 3, MPI_UINT64_T, adjProc, 0, 
                       MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
@@ -321,15 +324,15 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT cellFaceSide[3];
+            MPI_Recv(cellFaceSide, 3, MPI_UINT64_T, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            c_adjCellFromSide(getGLSide(cellFaceSide[2])) = cellFaceSide[0];
+            c_adjFaceFromSide(getGLSide(cellFaceSide[2])) = cellFaceSide[1];
         }
     }}
     
-    MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+    MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
 }
 
 
-- 
2.43.0


From 07da2c745cb27a9d33046d9556cb3f23e96e831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 04/25] fix: TychoMesh::getAdjFace returned the adjacent cell

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From ac52620f3dce2a47b80481d560f5fea91eaa501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 05/25] fix: SweepSchedule deadlocked when its messages exceed
 the eager limit

---
 src/SweepSchedule.cc | 70 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..b0652f8 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -50,6 +50,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <utility>
 #include <iostream>
 #include <set>
+#include <list>
 #include <queue>
 
 
@@ -84,6 +85,39 @@ public:
 };
 
 
+/*
+    PendingSends
+    
+    Nonblocking sends and their data.
+    All ranks send to their neighbors before they receive, so the sends can't
+    be blocking: a large message would block until it is received.
+*/
+class PendingSends
+{
+public:
+    static const int TAG = 0;
+    
+    void send(const vector<UINT> &data, UINT proc)
+    {
+        MPI_Request request;
+        c_data.push_back(data);
+        Comm::iSendUIntVector(c_data.back(), proc, TAG, request);
+        c_requests.push_back(request);
+    }
+    
+    void wait()
+    {
+        MPI_Waitall(c_requests.size(), c_requests.data(), MPI_STATUSES_IGNORE);
+        c_requests.clear();
+        c_data.clear();
+    }
+    
+private:
+    list<vector<UINT>> c_data;
+    vector<MPI_Request> c_requests;
+};
+
+
 /*
     calcNeighborProcs
 */
@@ -268,7 +302,8 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                PendingSends &pendingSends)
 {
     vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
     
@@ -293,9 +328,9 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
     
     for(UINT proc : neighborProcs) {
         UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
+        pendingSends.send({nSides}, proc);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
+            pendingSends.send(commSidesAnglesLevels[proc], proc);
         }
     }
 }
@@ -312,11 +347,12 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
                    const set<UINT> &neighborProcs)
 {
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> nSidesData(1);
+        Comm::recvUIntVector(nSidesData, proc, PendingSends::TAG);
+        UINT nSides = nSidesData[0];
         if (nSides > 0) {
             vector<UINT> commSidesAnglesLevels(3*nSides);
-            Comm::recvUIntVector(commSidesAnglesLevels, proc);
+            Comm::recvUIntVector(commSidesAnglesLevels, proc, PendingSends::TAG);
 
             for (UINT child = 0; child < nSides; ++child) {
                 const UINT globalSide = commSidesAnglesLevels[child * 3];
@@ -346,6 +382,7 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
+                PendingSends &pendingSends,
                 vector<vector<UINT> > &sendProcs)
 {
     vector<vector<UINT> > commSidesAngles(Comm::numRanks());
@@ -370,9 +407,9 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
         UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
+        pendingSends.send({nSides}, proc);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+            pendingSends.send(commSidesAngles[proc], proc);
             stepSendProcs.push_back(proc);
         }
     }
@@ -393,11 +430,12 @@ void recvOrders(priority_queue<PriorityWork> &availableWork,
     vector<UINT> stepRecvProcs;
     
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> nSidesData(1);
+        Comm::recvUIntVector(nSidesData, proc, PendingSends::TAG);
+        UINT nSides = nSidesData[0];
         if (nSides > 0) {
             vector<UINT> commSidesAngles(2*nSides);
-            Comm::recvUIntVector(commSidesAngles, proc);
+            Comm::recvUIntVector(commSidesAngles, proc, PendingSends::TAG);
             stepRecvProcs.push_back(proc);
             
             for (UINT parent = 0; parent < nSides; ++parent) {
@@ -446,9 +484,12 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        PendingSends pendingSends;
+        sendOrders(workDone, angles, hasChild, neighborProcs, pendingSends, 
+                   sendProcs);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        pendingSends.wait();
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +534,12 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        PendingSends pendingSends;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   pendingSends);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        pendingSends.wait();
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From 0a798a444416caaf05d4a7de961fd87c506dc325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 06/25] fix: SweepSchedule aborted with more OpenMP threads
 than angles

---
 src/SweepSchedule.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index b0652f8..28ccca2 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -542,8 +542,8 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         pendingSends.wait();
     }
     
-    UINT nlevels = cellLevels[0];
-    for(unsigned i = 1; i < cellLevels.size(); i++) {
+    UINT nlevels = 0;
+    for(unsigned i = 0; i < cellLevels.size(); i++) {
         nlevels = std::max(nlevels, cellLevels[i]);
     }
     Comm::gmax(nlevels);
-- 
2.43.0


From 7a6e4f7f71977272ab4ebbdba248c73d49a8466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 07/25] fix: CapsaicinTwoSided deadlocked when messages exceed
 the eager limit

---
 src/GraphTraverser.cc | 41 ++++++++++++++++++++++++++++-------------
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..2c1dcd9 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,11 +180,12 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    Only starts the sends.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers,
+    vector<MPI_Request> &mpiSendRequests) const
 {
-    vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
     int mpiError;
 
@@ -206,14 +207,22 @@ void GraphTraverser::sendData2Sided(
             mpiSendRequests.push_back(request);
         }
     }
+}
+
+
+/*
+    areSendsDone
     
-    
-    // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
-        Insist(mpiError == MPI_SUCCESS, "");
-    }
+    Tests if all the sends are done.
+*/
+static
+bool areSendsDone(vector<MPI_Request> &mpiSendRequests)
+{
+    int flag = 0;
+    int mpiError = MPI_Testall(mpiSendRequests.size(), mpiSendRequests.data(), 
+                               &flag, MPI_STATUSES_IGNORE);
+    Insist(mpiError == MPI_SUCCESS, "");
+    return flag != 0;
 }
 
 
@@ -238,12 +247,13 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
         // Probe for new message
         mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);
         Insist(mpiError == MPI_SUCCESS, "");
-        mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
-        Insist(mpiError == MPI_SUCCESS, "");
 
 
         // Recv message if there is one
         if (flag) {
+            mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
+            Insist(mpiError == MPI_SUCCESS, "");
+            
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
@@ -668,12 +678,17 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                 sendAndRecvData(sendBuffers1, dataPackets, commDark, killComm);
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
+                vector<MPI_Request> mpiSendRequests;
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, mpiSendRequests);
                 sendTimer.stop();
 
+                // Two ranks may be sending to each other, so keep receiving 
+                // until the sends are done.
                 recvTimer.start();
-                recvData2Sided(dataPackets);
+                do {
+                    recvData2Sided(dataPackets);
+                } while (!areSendsDone(mpiSendRequests));
                 recvTimer.stop();
             }
             else {
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..bd0c835 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<MPI_Request> &mpiSendRequests) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From 27fb8bc0be4961daab05071902e6639059594c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 08/25] fix: order of face vertices depended on the order in
 each partition's file

---
 src/TychoMeshIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 14ca5d7..98fe2cf 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -288,8 +288,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
             if(partData.faceData[face].boundingNodes[order[fvrtx]] == 
                partData.cellData[cell].boundingNodes[cvrtx])
             {
-                c_faceToCellVrtx(cell, lface, order[fvrtx]) = cvrtx;
-                c_cellToFaceVrtx(cell, lface, cvrtx) = order[fvrtx];
+                c_faceToCellVrtx(cell, lface, fvrtx) = cvrtx;
+                c_cellToFaceVrtx(cell, lface, cvrtx) = fvrtx;
             }
         }}
     }}
-- 
2.43.0


From e5f555c7bd30947594fdcca41026ae32a49ba6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 09/25] fix: sweeps hung on faces parallel to a direction

---
 src/CommSides.cc      | 2 +-
 src/GraphTraverser.cc | 3 ++-
 src/TychoMesh.cc      | 9 +++++++++
 src/TychoMesh.hh      | 2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 2c1dcd9..c5b450e 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -607,7 +607,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.cc b/src/TychoMesh.cc
index dc206c4..5647dd4 100644
--- a/src/TychoMesh.cc
+++ b/src/TychoMesh.cc
@@ -117,6 +117,10 @@ double getTetVolume(TychoMesh::CellCoords points)
 }
 
 
+// Same tolerance as SweepSchedule
+static const double OMEGA_DOT_N_TOL = 1.e-10;
+
+
 /*
     Get the outward normal for a face given face points and cell points.
     The extra cell point gives the outward normal direction.
@@ -219,6 +223,11 @@ TychoMesh::TychoMesh(const std::string &filename)
             c_omegaDotN(angle, cell, face) = omega[0] * normal[0] + 
                                              omega[1] * normal[1] + 
                                              omega[2] * normal[2];
+            
+            // A face parallel to omega is neither incoming nor outgoing.
+            // The sign of the roundoff error would mean nothing.
+            if (fabs(c_omegaDotN(angle, cell, face)) < OMEGA_DOT_N_TOL)
+                c_omegaDotN(angle, cell, face) = 0.0;
         }}
     }
     
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From c2fce0f8c356844aace4bed039bf9db83985989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 10/25] fix: MPI was initialised without the thread support
 OriginalTycho2 needs

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..09bf2e7 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -194,7 +194,8 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // OriginalTycho2 calls MPI from all OpenMP threads, one at a time
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From cfd8e61c86e89e225107cbd907c810949b5737ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 11/25] fix: an unknown GaussElim value was silently replaced
 by Original

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 09bf2e7..ddb52a0 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,7 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
-
+    else
+        Insist(false, "Gauss elimination method not recognized.");
 }
 
 
-- 
2.43.0


From 8f1f3339b528d996f88661edd9a6c97835e4d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 12/25] fix: a truncated parallel mesh was read as if complete

---
 src/Comm.cc | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..646bc4d 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -248,7 +248,7 @@ void recvUInt(UINT &i, int destination)
 */
 void recvUIntVector(std::vector<UINT> &buffer, int destination)
 {
-    int result = MPI_Recv(&buffer[0], buffer.size(), MPI_UINT64_T, destination, 
+    int result = MPI_Recv(buffer.data(), buffer.size(), MPI_UINT64_T, destination, 
                           INT_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
     Insist(result == MPI_SUCCESS, "Comm::recvUIntVector MPI error.\n");
 }
@@ -261,7 +261,7 @@ void recvUIntVector(std::vector<UINT> &buffer, int destination)
 */
 void recvUIntVector(std::vector<UINT> &buffer, int destination, int tag)
 {
-    int result = MPI_Recv(&buffer[0], buffer.size(), MPI_UINT64_T, destination, 
+    int result = MPI_Recv(buffer.data(), buffer.size(), MPI_UINT64_T, destination, 
                           tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
     Insist(result == MPI_SUCCESS, "Comm::recvUIntVector with tag MPI error.\n");
 }
@@ -274,7 +274,7 @@ void recvUIntVector(std::vector<UINT> &buffer, int destination, int tag)
 */
 void recvDoubleVector(std::vector<double> &buffer, int destination, int tag)
 {
-    int result = MPI_Recv(&buffer[0], buffer.size(), MPI_DOUBLE, destination, 
+    int result = MPI_Recv(buffer.data(), buffer.size(), MPI_DOUBLE, destination, 
                           tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
     Insist(result == MPI_SUCCESS, "Comm::recvDoubleVector MPI error.\n");
 }
@@ -363,6 +363,24 @@ void seek(const MPI_File &file, uint64_t position)
 }
 
 
+/*
+    readBytes
+    
+    Read bytes from file.  Reading past the end of the file is an error.
+*/
+static
+void readBytes(const MPI_File &file, void *data, int numBytes)
+{
+    MPI_Status status;
+    int numRead = 0;
+    int result = MPI_File_read(file, data, numBytes, MPI_BYTE, &status);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+    result = MPI_Get_count(&status, MPI_BYTE, &numRead);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+    Insist(numRead == numBytes, "Comm::readBytes unexpected end of file.\n");
+}
+
+
 /*
     readUint64
     
@@ -370,9 +388,7 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
-    int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    readBytes(file, &data, sizeof(uint64_t));
 }
 
 
@@ -383,9 +399,7 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(uint64_t) * numData);
 }
 
 
@@ -396,9 +410,7 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(char) * numData);
 }
 
 
-- 
2.43.0


From 4645402d5185c1aab414f18961ee0d3ec0f16184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 13/25] fix: hat source was NaN at a node in the center of the
 cube

---
 src/Problem.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..6dcd473 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -69,7 +69,12 @@ void hatSource(PsiData &source)
         double c = sqrt(x*x + y*y + z*z);
         
         for(UINT group = 0; group < g_nGroups; group++) {
-            if(c <= 30.0) {
+            if(c == 0.0) {
+                // Tip of the hat: no gradient
+                source(group, vrtx, angle, cell) = 
+                    g_sigmaT[cell] - g_sigmaS[cell];
+            }
+            else if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
                     - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
-- 
2.43.0


From bf418cda9e5165d5b06a37286a41defe2f1ad2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 14/25] fix: diffBetweenGroups was NaN or depended on the mesh
 partition

---
 src/Util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..fe51fae 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -73,9 +73,11 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
     Comm::gmax(maxDiff);
-    return maxDiff;
+    Comm::gmax(maxEntry);
+    if (maxEntry == 0.0)
+        return maxDiff;
+    return maxDiff / maxEntry;
 }
 
 
-- 
2.43.0


From 3a6953f7afa1b98062fa29a599fb00c17d7901e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 15/25] fix: address of the first element of empty vectors

---
 src/GraphTraverser.cc | 4 ++--
 src/Sweeper.cc        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index c5b450e..cf3d021 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -257,7 +257,7 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
-            mpiError = MPI_Recv(&dataPackets[originalSize], recvCount, 
+            mpiError = MPI_Recv(dataPackets.data() + originalSize, recvCount, 
                                 MPI_BYTE, adjRank, tag, MPI_COMM_WORLD, 
                                 MPI_STATUS_IGNORE);
             Insist(mpiError == MPI_SUCCESS, "");
@@ -393,7 +393,7 @@ void GraphTraverser::sendAndRecvData(const vector<vector<char>> &sendBuffers,
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvSizes[index]);
             
-            mpiError = MPI_Recv(&dataPackets[originalSize], recvSizes[index], 
+            mpiError = MPI_Recv(dataPackets.data() + originalSize, recvSizes[index], 
                                 MPI_BYTE, adjRank, tag1, MPI_COMM_WORLD, 
                                 MPI_STATUS_IGNORE);
             Insist(mpiError == MPI_SUCCESS, "");
diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 7a11ed5..f8e2fc4 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -449,7 +449,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 recv(step, angleGroup, psiBound);
             }
             
-            MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+            MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
             //Comm::barrier();
         }
     }
@@ -495,7 +495,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 send(step, angleGroup, commSidesAngles, commPsi, sendBuffers, 
                      mpiRequests);
                 recv(step, angleGroup, psiBound);
-                MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
+                MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
                             MPI_STATUSES_IGNORE);
                 
                 
-- 
2.43.0


From fed2586f5466db1352c85ad11d95bec616876597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 16/25] fix: KeyValueReader accepted numbers followed by other
 characters

---
 src/KeyValueReader.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..6ddb79d 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -410,7 +410,11 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t numChars;
+        int number = stoi(valueString, &numChars);
+        if (numChars != valueString.size())
+            throw ExceptionStringConversionError;
+        value = number;
     }
     catch (...) {
         c_data->printMessage("Error converting value to int");
@@ -438,7 +442,11 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t numChars;
+        double number = stod(valueString, &numChars);
+        if (numChars != valueString.size())
+            throw ExceptionStringConversionError;
+        value = number;
     }
     catch (...) {
         c_data->printMessage("Error converting value to double");
@@ -466,7 +474,11 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t numChars;
+        float number = stof(valueString, &numChars);
+        if (numChars != valueString.size())
+            throw ExceptionStringConversionError;
+        value = number;
     }
     catch (...) {
         c_data->printMessage("Error converting value to float");
-- 
2.43.0


From 6729155dab47b4be13ea783afedfed3d9442e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 17/25] fix: cells without descendants on other ranks got the
 highest priority

---
 src/Priorities.cc    | 4 +++-
 src/SweepSchedule.cc | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 084fc97..39956d5 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -244,8 +244,10 @@ public:
             }
             
             else if (bdryType[face] == BoundaryType_OutInt) {
+                // Zero means no descendants in another partition
                 UINT adjCell = adjCellsSides[face];
-                priority = c_priorities(adjCell, angle) + c_parentShift;
+                if (c_priorities(adjCell, angle) > 0)
+                    priority = c_priorities(adjCell, angle) + c_parentShift;
             }
             
             c_priorities(cell, angle) = max(c_priorities(cell, angle), priority);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 28ccca2..6413c7d 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -596,7 +596,8 @@ void updatePriorities(Mat2<UINT> &priorities,
         for (UINT face = 0; face < g_nFacePerCell; ++face) {
             UINT adjCell = g_tychoMesh->getAdjCell(cell, face);
             if (hasParent(angle, cell, face) &&
-                adjCell != TychoMesh::BOUNDARY_FACE) // on processor
+                adjCell != TychoMesh::BOUNDARY_FACE && // on processor
+                priorities(angle, cell) > 0) // has descendants off processor
             {
                 priorities(angle, adjCell) =
                     max(priorities(angle, adjCell),
-- 
2.43.0


From 41862d9f2889d20e4d2b01fbfb8dd16556fa6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 18/25] fix: refuse unknown intra- and inter-angle priorities
 in the deck

---
 src/Main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index ddb52a0..702eb72 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -120,6 +120,11 @@ void readInput(const string &inputFileName,
     kvr.getInt("DD_IterMax", ddIterMax);
     kvr.getDouble("DD_ErrMax", g_ddErrMax);
     kvr.getBool("SourceIteration", g_useSourceIteration);
+
+    Insist(intraAngleP >= 0 && intraAngleP <= 4,
+           "Intra-angle priority not recognized.");
+    Insist(interAngleP >= 0 && interAngleP <= 2,
+           "Inter-angle priority not recognized.");
        
     g_snOrder = snOrder;
     g_iterMax = iterMax;
-- 
2.43.0


From 8b3d639137f6ded9ad8e6c80afec48243e36a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 19/25] fix: refuse decks whose counts are zero or negative

---
 src/Main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 702eb72..5711269 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -125,6 +125,10 @@ void readInput(const string &inputFileName,
            "Intra-angle priority not recognized.");
     Insist(interAngleP >= 0 && interAngleP <= 2,
            "Inter-angle priority not recognized.");
+    Insist(maxCellsPerStep >= 1, "maxCellsPerStep must be at least 1.");
+    Insist(nGroups >= 1, "nGroups must be at least 1.");
+    Insist(iterMax >= 0, "iterMax must not be negative.");
+    Insist(ddIterMax >= 0, "DD_IterMax must not be negative.");
        
     g_snOrder = snOrder;
     g_iterMax = iterMax;
-- 
2.43.0


From 2f0886a00eb648d9565bdfce909a0e307f21ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 20/25] fix: SweeperSchur gave wrong Krylov operators when its
 initial guess was too large

---
 src/SweeperSchur.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SweeperSchur.cc b/src/SweeperSchur.cc
index e577411..2fb0339 100644
--- a/src/SweeperSchur.cc
+++ b/src/SweeperSchur.cc
@@ -245,8 +245,6 @@ void SweeperSchur::solve()
 */
 void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
 {
-    UNUSED_VARIABLE(zeroPsiBound);
-    
     // Initialize variables
     PsiData zeroSource;
     zeroSource.setToValue(0.0);
@@ -269,8 +267,11 @@ void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     
     
     // Initial guess
+    // The sources of a Krylov operator (zeroPsiBound) are of very different
+    // sizes. A guess much larger than the solution makes the solver give up.
+    psiBound.setToValue(0.0);
     x = c_krylovSolver->getX();
-    psiBoundToVec(x, c_psiBoundPrev);
+    psiBoundToVec(x, zeroPsiBound ? psiBound : c_psiBoundPrev);
     c_krylovSolver->releaseX();
     c_krylovSolver->setInitialGuessNonzero();
     
@@ -301,7 +302,8 @@ void SweeperSchur::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     }
     x = c_krylovSolver->getX();
     vecToPsiBound(x, psiBound);
-    vecToPsiBound(x, c_psiBoundPrev);
+    if (!zeroPsiBound)
+        vecToPsiBound(x, c_psiBoundPrev);
     c_krylovSolver->releaseX();
     Util::sweepLocal(psi, source, psiBound);
     
-- 
2.43.0


From b3b0ca84209d61da1ba688a2dd60185ecc8d8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 21/25] fix: block Jacobi methods stopped one iteration before
 DD_IterMax

They did DD_IterMax-1 iterations (none for a limit of one, leaving a zero
flux) and reported DD_IterMax of them.
---
 src/SweeperPBJ.cc | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/SweeperPBJ.cc b/src/SweeperPBJ.cc
index 0581871..519e714 100644
--- a/src/SweeperPBJ.cc
+++ b/src/SweeperPBJ.cc
@@ -70,9 +70,11 @@ void SweeperPBJOuter::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        iter++;
+        
         // Sweep
         UINT its;
         if (g_useSourceIteration)
@@ -105,10 +107,6 @@ void SweeperPBJOuter::solve()
         
         // Communicate
         c_commSides.commSides(c_psi, c_psiBound);
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
@@ -178,9 +176,11 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     
     
     // Sweep till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        iter++;
+        
         // Sweep
         Util::sweepLocal(psi, source, c_psiBoundPrev);
         c_iters++;
@@ -205,10 +205,6 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
         
         // Communicate
         c_commSides.commSides(psi, c_psiBoundPrev);
-        
-        
-        // Increment iter
-        iter++;
     }
 
 
@@ -243,9 +239,11 @@ void SweeperPBJSI::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        iter++;
+        
         Util::calcTotalSource(c_source, phi0, totalSource);
         sweep(c_psi, totalSource, false);
         Util::psiToPhi(phi1, c_psi);
@@ -270,10 +268,6 @@ void SweeperPBJSI::solve()
 
         if (errL1 / normL1 < g_ddErrMax)
             break;
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
-- 
2.43.0


From 58aa79193f2e1da5a5de0f5b424667c061acfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 22/25] fix: a flux file cut short by a full disk was not
 noticed

A short write is no MPI error: only its status tells how much was written.
---
 src/Comm.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 646bc4d..e5036bc 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -422,9 +422,15 @@ void readChars(const MPI_File &file, char *data, int numData)
 void writeDoublesAt(const MPI_File &file, UINT offset, double *data, 
                     UINT numData)
 {
+    MPI_Status status;
+    int numWritten = 0;
     int result = MPI_File_write_at(file, offset * 8, data, numData, MPI_DOUBLE, 
-                                   MPI_STATUS_IGNORE);
+                                   &status);
+    Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error.\n");
+    result = MPI_Get_count(&status, MPI_DOUBLE, &numWritten);
     Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error.\n");
+    Insist(numWritten == (int)numData, 
+           "Comm::writeDoublesAt could not write all data.\n");
 }
 
 
-- 
2.43.0


From b0061b002f5412e0031e8f8d257be6d1fac52ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 23/25] fix: mesh writers ignored errors found when the file is
 closed

The last buffer of a mesh is written by fclose; without room for it a
truncated mesh was left with exit status 0.
---
 src/ParallelMesh.cc | 3 ++-
 src/SerialMesh.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index aac98f2..65e503b 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -260,7 +260,8 @@ void ParallelMesh::write(const std::string &filename)
     
     
     // Close file
-    fclose(file);
+    int closeError = fclose(file);
+    assert(closeError == 0);
 }
 
 
diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index aa5ad9a..7c7066e 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -197,7 +197,8 @@ void SerialMesh::write(const std::string &filename)
 
     
     // Close file
-    fclose(file);
+    int closeError = fclose(file);
+    assert(closeError == 0);
 }
 
 
-- 
2.43.0


From 557ccf205e0dc5075e4f7f942dfaa28e47bc8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 24/25] fix: MoabToSerialMesh used an uninitialised choice when
 there is no input

---
 util/MoabToSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/MoabToSerialMesh.cc b/util/MoabToSerialMesh.cc
index 7137933..064ac29 100644
--- a/util/MoabToSerialMesh.cc
+++ b/util/MoabToSerialMesh.cc
@@ -256,7 +256,7 @@ int main(int argc, char* argv[])
     ErrorCode moabStatus;
     SerialMesh mesh;
     ProblemType problemType;
-    int menuChoice;
+    int menuChoice = 0;
     
     
     // Print utility name
-- 
2.43.0


From 4ad0717e5874f6d794f9a72480e6d16ddee8eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 25/25] fix: ParallelMeshToMoab did not notice that its .visit
 file could not be written

---
 util/ParallelMeshToMoab.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/ParallelMeshToMoab.cc b/util/ParallelMeshToMoab.cc
index c401ea1..3af42ba 100644
--- a/util/ParallelMeshToMoab.cc
+++ b/util/ParallelMeshToMoab.cc
@@ -109,6 +109,7 @@ void writeVisitFile(const string &prefix, const vector<string> &filenames)
     }
     
     file.close();
+    assert(file.good());
 }
 
 
-- 
2.43.0

