From c8141407c506802d5e302d43c8f721d83228f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 01/16] fix: edges shared by two new triangles are not on the
 hull boundary

addPoint kept (b, p) and (p, b) as boundary edges when two adjacent edges
were visible from p, so later points triangulated over existing triangles
and the hull area came out wrong.
---
 cpp/SgTriangulate.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..3b39541 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -316,7 +316,11 @@ struct SgTriangulate_type {
         for (std::set< std::vector<size_t> >::const_iterator 
              it = boundaryEdgesToAdd.begin();
              it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+            // an edge shared by two of the new triangles is interior
+            std::vector<size_t> reversedEdge(it->rbegin(), it->rend());
+            if (boundaryEdgesToAdd.find(reversedEdge) == boundaryEdgesToAdd.end()) {
+                this->boundaryEdges.insert(*it);
+            }
         }
     }
 };
-- 
2.43.0


From e6683a8abe2165ac192e390345b063c6d837628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 02/16] fix: triangulation read past the end of its point array

makeFirstTriangle looked one point too far when all the points are on a
line, and the constructor went on adding points that
removeDegenerateSegments had removed.
---
 cpp/SgTriangulate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 3b39541..89ff5fd 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -105,8 +105,9 @@ struct SgTriangulate_type {
         // create the first, non-degenerate triangle
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
-        // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // add the remaining points, some points may have been removed
+        numPoints = (int) (this->points.size() / NDIMS_2D_PHYS);
+        for (int ip = (int) lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -195,7 +196,7 @@ struct SgTriangulate_type {
         size_t i1 = 1;
         size_t i2 = 2;
         double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
+        while (i2 + 1 < numPoints && area < this->eps) {
             // the points appear to be a line, get the two extremum point indices
             std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
             i0 = extrema[0];
-- 
2.43.0


From 765e527c2e026c37fe812d86b610730c3afd72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 03/16] fix: pass the transposed dimensions of non-square
 systems to dgels

A row major nrow x ncol matrix is a column major ncol x nrow matrix, but
dgels was told nrow x ncol with leading dimension nrow: over-determined
systems got a wrong solution, under-determined ones an illegal ldb.
---
 cpp/SgLinearSolve.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..ef01c78 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -83,13 +83,14 @@ struct SgLinearSolve_type {
     int errCode = 0;
     char t = 'T'; // C storage
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // the row major matrix is, to Fortran, its ncol x nrow transpose 
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From e6fa8e1e916bd8d94bcb4d4bbed2da0bfa8844ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 04/16] fix: keep the weights of nodes found by the search from
 the side

A destination node that the first search missed and the second found got
no interpolation weights.
---
 cpp/SgNodeInterp2D.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..7924bb7 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -199,7 +199,12 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    // found the index location
+                    this->weights.insert(std::make_pair(dstNodeIndex,
+                        this->pointFinder->getSrcIndicesAndWeights(this->pointFinder->getIndices())));
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
-- 
2.43.0


From af1d61b2ea6341b97da62e765b9889409328a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 05/16] fix: recomputing conservative weights kept those of the
 previous grids

---
 cpp/SgConserveInterp2D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..0bf9912 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// forget about the weights of a previous call
+		this->weights.clear();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
-- 
2.43.0


From 3eb851ff77ee946fd50c78133f42be3d2d0017b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 06/16] fix: the weight iterator was dereferenced past the last
 element

---
 cpp/SgConserveInterp2D.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0bf9912..e225dad 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -338,7 +338,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -351,8 +353,6 @@ struct SgConserveInterp2D_type {
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -360,6 +360,8 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
-- 
2.43.0


From bd5f0b06d450edd1e1b99fe3716b008fbc84f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 07/16] fix: computing the flow weights twice doubled the flows

---
 cpp/SgFlowInterp2D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..f38b56f 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -185,6 +185,9 @@ struct SgFlowInterp2D_type {
      */
     void computeWeights() {
 
+        // forget about the weights of a previous call
+        this->weights.clear();
+
         double dstLineCoords[2*NDIMS_2D_PHYS];
         double srcQuadCoords[4*NDIMS_2D_PHYS];
         const int offset1D[] = {0, 1};
-- 
2.43.0


From 1aa0dad09869056765cc1a8a6bfe1f0adea3b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 08/16] fix: SgFlowInterp2D leaked its box iterators

---
 cpp/SgFlowInterp2D.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index f38b56f..3a2b9e0 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -57,6 +57,7 @@ struct SgFlowInterp2D_type {
         if (this->srcNodeIt) {
             delete this->srcNodeIt;
         }
+        delete this->srcCellIt;
         for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
             delete this->srcEdgeIts[i];
         }
@@ -108,6 +109,12 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        // the iterators of a previous call
+        delete this->srcNodeIt;
+        delete this->srcCellIt;
+        delete this->srcEdgeIts[0];
+        delete this->srcEdgeIts[1];
+
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
-- 
2.43.0


From d427cc2953e42257fbea9e476827f9cbcd7abac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 09/16] fix: the intersectors leaked their linear solver when
 not deleted through the C interface

---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..77b7614 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..aa45fe9 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From ef2361662e7cd9863a62326465baa70d9d20db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 10/16] fix: read the last item of an int list as an int

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..53ac591 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -300,7 +300,7 @@ CmdLineArgParser::get<std::vector<int> >(const std::string& name) const {
             pos0 = pos1 + 1;
             pos1 = str.find(',', pos0);
         }
-        res.push_back(std::atof(str.substr(pos0, pos1 - pos0).c_str()));
+        res.push_back(std::atoi(str.substr(pos0, pos1 - pos0).c_str()));
     }
     return res;
 }
\ No newline at end of file
-- 
2.43.0


From baf746a05f78b7ac0898ab900cf605d6ca53906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 11/16] fix: flat cell indices were computed with the node
 dimensions

---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 45762d1b0e73fd7bcc731954adc47e33700c4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 12/16] fix: points on the domain boundary were rejected when
 the coordinates are large

The tolerance was absolute, less than the round off error of coordinates
of order 100 and more: flows through cells in degrees came out wrong.
---
 cpp/SgFindPointInCell.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..e1c3eb9 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -9,6 +9,7 @@
 #include <cstdio> // size_t
 #include <cmath>
 #include <limits>
+#include <algorithm>
 #include <iostream>
 #include "SgLinearSolve.h"
  
@@ -217,8 +218,10 @@ int next() {
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        // the round off error of a coordinate scales with its magnitude
+        double xeps = eps * std::max(1.0, std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
+        inside &= this->targetPoint[i] >= this->xmins[i] - xeps;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + xeps;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From b9d66dd6c1a8530e58f0bc5867a9c5e262d80c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 13/16] fix: a point finder kept the bounds and periodicity of
 its previous grid

The linear solver of the previous grid was leaked too.
---
 cpp/SgFindPointInCell.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index e1c3eb9..6ff7f8f 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -107,10 +107,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -143,6 +143,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    if (this->slvr) delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
-- 
2.43.0


From 971a6c3dc78e3b38ab9050dd68f9fd28b2d8f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 14/16] fix: a polygon vertex outside the source grid counted
 as the middle of the grid

Cells between the actual extent of the polygon and the middle of the grid
were missed, or cells far from the polygon returned.
---
 cpp/SgFindOverlappingCells2D.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..6f74534 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -9,6 +9,7 @@
 #include "SgFindPointInCell.h"
 #include "SgBoxIterator.h"
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 
 struct SgFindOverlappingCells2D_type {
@@ -124,7 +125,13 @@ struct SgFindOverlappingCells2D_type {
             bool iterFlag = true;
 
             // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            double targetPoint[NDIMS_2D_PHYS];
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                // the search gives up on points that are outside the src grid's box
+                targetPoint[j] = std::min(this->pointFinder->getSrcDomainHi()[j],
+                                          std::max(this->pointFinder->getSrcDomainLo()[j],
+                                                   this->polyPoints[i*NDIMS_2D_PHYS + j]));
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
-- 
2.43.0


From fd291f943a6d2bfdc1610d682ee0c40ded455a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:07 +0000
Subject: [PATCH 15/16] fix: intersecting again returned the points of the
 previous call too

The C interface has no reset function.
---
 cpp/SgQuadIntersect.h     | 2 ++
 cpp/SgQuadLineIntersect.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 77b7614..7a3707f 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -232,6 +232,8 @@ struct SgQuadIntersect_type {
     void collectIntersectPoints(int* numPoints, double** points) {
 
         *numPoints = 0;
+        // forget about the points of a previous call
+        this->reset();
         double pt[NDIMS_2D_PHYS];
 
         this->collectNodesInsideQuad((const double*)this->quad1Coords, 
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index aa45fe9..aae99a0 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -242,6 +242,8 @@ struct SgQuadLineIntersect_type {
     void collectIntersectPoints(int* numPoints, double** points) {
 
         *numPoints = 0;
+        // forget about the points of a previous call
+        this->reset();
 
         // add the starting line point if inside the quad
         if (this->isPointInQuad(&this->lineCoords[0*NDIMS_2D_PHYS], this->quadCoords)) {
-- 
2.43.0


From 729125157f2ad1e6111c6dffc5ca1e02918a8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 16/16] fix: triangulation tolerance did not scale with the
 points

---
 cpp/SgTriangulate.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 89ff5fd..d5cc2ef 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -75,8 +75,15 @@ struct SgTriangulate_type {
 
     SgTriangulate_type(int numPoints, const double points[]) {
 
-        // tolerance for floating point comparisons
-        this->eps = 1.e-12;
+        // tolerance for floating point comparisons of areas and distances square,
+        // relative to the extent of the points
+        double extent = 0;
+        for (int i = 1; i < numPoints; ++i) {
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                extent = std::max(extent, std::abs(points[NDIMS_2D_PHYS*i + j] - points[j]));
+            }
+        }
+        this->eps = 1.e-12 * extent * extent;
 
         this->points.resize(2 * numPoints);
 
@@ -160,7 +167,7 @@ struct SgTriangulate_type {
         // the point is a middle point. Return the other two points
         std::vector<size_t> inds(3);
         inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        double dotProduct = 1;
+        double dotProduct = std::numeric_limits<double>::infinity();
         size_t ia = 0, ib = 0, ic = 0;
         size_t j = 0;
         while (dotProduct > this->eps && j < 3) {
-- 
2.43.0

