From 5f952c77c81164cb8d0d4921bad85f72d712c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:09 +0000
Subject: [PATCH 01/47] fix: use the second corner when classifying the closest
 point on a triangle

---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From 81fd72518c7fba397ba10d784e4cf5f3bc50a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 02/47] fix: refuse to flip a boundary edge

---
 src/tinymesh/core/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..350bcd1 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -871,6 +871,10 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From 03f22fff44e0e0abfc1be8c13667606fe9b979b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 03/47] fix: do not keep a reference into the halfedge list
 while it grows

---
 src/tinymesh/core/mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 350bcd1..be43a16 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -300,14 +300,14 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
-        Assertion(he.get() != nullptr, "Null halfedge detected!");
+        Halfedge *he = halfedges_[i].get();
+        Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-            Halfedge *it = he.get();
+            Halfedge *it = he;
             do {
                 auto rev = new Halfedge();
                 addHalfedge(rev);
@@ -324,11 +324,11 @@ void Mesh::construct() {
 
                 // Advance it to the next halfedge along the current boundary loop
                 it = it->next_;
-                while (it != he.get() && it->rev_ != nullptr) {
+                while (it != he && it->rev_ != nullptr) {
                     it = it->rev_;
                     it = it->next_;
                 }
-            } while (it != he.get());
+            } while (it != he);
 
             face->halfedge_ = boundaryHalfedges.front();
 
-- 
2.43.0


From aece0e359e19fe875bf8686dc8e60d79f97d28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 04/47] fix: drop the previous triangles when a mesh object is
 built or loaded again

---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index be43a16..eef8ab9 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From 9ac9b4b7bae51b39e17fe21c485cf59416251a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 05/47] fix: check the triangle swapped in for a removed
 degenerate triangle

---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index eef8ab9..e86fbf0 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -185,7 +185,7 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
-    for (size_t i = 0; i < indices_.size(); i += 3) {
+    for (size_t i = 0; i < indices_.size();) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
             const int size = (int)indices_.size();
@@ -193,6 +193,8 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+        } else {
+            i += 3;
         }
     }
 
-- 
2.43.0


From e7b81ae38ec22b86278f6ef4d4fabf1308b3f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 06/47] fix: report vertices without a polygon before they are
 traversed

---
 src/tinymesh/core/mesh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e86fbf0..69a2c12 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -288,6 +288,13 @@ void Mesh::construct() {
         }
     }
 
+    // Check if all vertices are used by at least one polygon
+    for (auto v : vertices_) {
+        if (v->halfedge_ == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+    }
+
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
         Halfedge *he = v->halfedge_;
@@ -351,10 +358,6 @@ void Mesh::construct() {
 
     // Check if the mesh is non-manifold
     for (auto v : vertices_) {
-        if (v->halfedge_ == nullptr) {
-            Error("Some vertices are not referenced by any polygon!");
-        }
-
         uint32_t count = v->isBoundary() ? -1 : 0;
         Halfedge *he = v->halfedge_;
         do {
-- 
2.43.0


From d9f00663f37c267d24b8b0384ff9588bc53a80d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 07/47] fix: report invalid indices instead of reading out of
 bounds

---
 src/tinymesh/core/mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 69a2c12..5fe92e7 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -93,9 +93,16 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     faces_.clear();
     indices_.clear();
 
+    if (indices.size() % 3 != 0) {
+        Error("The number of indices must be a multiple of three!");
+    }
+
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of range: %d", i);
+        }
         const Vec3 &pos = vertices[i];
 
         if (uniqueVertices.count(pos) == 0) {
-- 
2.43.0


From 2fbe6cca0c63ef25f83a847b02fa5a0b3eb2d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 08/47] fix: do not take an isolated triangle for a hole

---
 src/tinymesh/core/completion.cpp | 1 +
 src/tinymesh/core/face.cpp       | 8 +-------
 src/tinymesh/core/face.h         | 1 +
 src/tinymesh/core/mesh.cpp       | 1 +
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..54b9785 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -253,6 +253,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
                 it->isBoundary_ = false;
                 it->rev_->isBoundary_ = false;
             }
+            face->isHole_ = false;
             break;
         }
 
diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c73ba45..9e4ef97 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -76,13 +76,7 @@ int Face::numCorners() const {
 }
 
 bool Face::isHole() const {
-    // Face is hole if all the vertices are at the boundary.
-    for (auto it = this->he_begin(); it != this->he_end(); ++it) {
-        if (!it->isBoundary()) {
-            return false;
-        }
-    }
-    return true;
+    return isHole_;
 }
 
 bool Face::isBoundary() const {
diff --git a/src/tinymesh/core/face.h b/src/tinymesh/core/face.h
index 0f4ef98..b8fe9a6 100644
--- a/src/tinymesh/core/face.h
+++ b/src/tinymesh/core/face.h
@@ -67,6 +67,7 @@ public:
 private:
     Halfedge *halfedge_ = nullptr;
     int index_ = -1;
+    bool isHole_ = false;
 
     friend class Mesh;
 };
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 5fe92e7..96d411a 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -322,6 +322,7 @@ void Mesh::construct() {
         Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
+            face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-- 
2.43.0


From d963f4782a187610836e6fcbded61d49e3af2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 09/47] fix: clear the boundary flag on both sides of a filled
 hole

---
 src/tinymesh/core/completion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 54b9785..560f6b3 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -204,6 +204,9 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
 
     for (auto f : new_faces) {
         for (auto it = f->he_begin(); it != f->he_end(); ++it) {
+            if (it->rev_ != nullptr) {
+                it->rev_->isBoundary_ = false;
+            }
             if (it->rev_ == NULL) {
                 auto e = he2pair[it.ptr()];
                 int i = std::get<0>(e);
-- 
2.43.0


From 4c513b4fc8ec7403072275da2c128543d32db9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 10/47] fix: do not collapse an inner edge between two boundary
 vertices

---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 96d411a..151d7c1 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -772,6 +772,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // Check unsafe collapse (inner edge connecting two boundary vertices)
+    if (v0->isBoundary() && v2->isBoundary()) {
+        return false;
+    }
+
     // Check unsafe collapse (face flip)
     Vec3 norm(0.0);
     for (size_t i = 0; i < neighbors.size(); i++) {
-- 
2.43.0


From 9b4219152742395a038d7478182e9719d283e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:11 +0000
Subject: [PATCH 11/47] fix: detect flipped faces on both sides of a collapsed
 edge

---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 151d7c1..a079cba 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -801,7 +801,9 @@ bool Mesh::collapseHE(Halfedge *he) {
         if (sign * s < 0.0) {
             return false;
         }
-        sign = s;
+        if (s != 0.0) {
+            sign = s;
+        }
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From 4145ce1b0166b09494ec93af1cd294299b805715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:25 +0000
Subject: [PATCH 12/47] fix: clear the boundary flag on both sides in
 advancing-front filling too

---
 src/tinymesh/core/completion.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 560f6b3..fd807b3 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -68,6 +68,11 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he0->isBoundary_ = false;
     new_he1->isBoundary_ = false;
     new_he2->isBoundary_ = false;
+    for (auto he : { new_he0, new_he1, new_he2 }) {
+        if (he->rev_ != nullptr) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
 
     auto new_face = new Face();
     addFace(new_face);
@@ -204,9 +209,6 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
 
     for (auto f : new_faces) {
         for (auto it = f->he_begin(); it != f->he_end(); ++it) {
-            if (it->rev_ != nullptr) {
-                it->rev_->isBoundary_ = false;
-            }
             if (it->rev_ == NULL) {
                 auto e = he2pair[it.ptr()];
                 int i = std::get<0>(e);
-- 
2.43.0


From f20690e1dd380336f13361e49055de322d22962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:21 +0000
Subject: [PATCH 13/47] fix: do not merge a fixed vertex in advancing-front
 filling

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index fd807b3..3e8524e 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -267,7 +267,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From 643eb5fe153c409cf050cb03735dcab8475671ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:23 +0000
Subject: [PATCH 14/47] fix: do not divide by zero when the normals next to a
 front vertex cancel out

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 3e8524e..f88d827 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -340,7 +340,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const int next = (i + 1) % N;
             const Vec3 norm1 = pair2he[E(prev, i)]->rev()->face()->normal();
             const Vec3 norm2 = pair2he[E(i, next)]->rev()->face()->normal();
-            const Vec3 norm = normalize(norm1 + norm2);
+            const Vec3 norm = norm1 + norm2;
 
             const Vec3 e1 = face_vs[prev]->pos() - face_vs[i]->pos();
             const Vec3 e2 = face_vs[next]->pos() - face_vs[i]->pos();
-- 
2.43.0


From 31a8230694d0ba2d9bd8eef289908f0391a9dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:23 +0000
Subject: [PATCH 15/47] fix: do not divide by zero when the smoothed normals of
 a face cancel out

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index f88d827..aae6151 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -598,7 +598,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (auto it = f->v_begin(); it != f->v_end(); ++it) {
             n1 += newNormals[it.ptr()];
         }
-        n1 = normalize(n1);
+        n1 = length(n1) != 0.0 ? normalize(n1) : n0;
 
         const Vec3 axis = cross(n0, n1);
         const double theta = std::atan2(length(axis), dot(n0, n1));
-- 
2.43.0


From ea83e7634ad8a19d534d35be7cb1f72a6bb1ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:51 +0000
Subject: [PATCH 16/47] fix: stop an advancing front that does not shrink

---
 src/tinymesh/core/completion.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index aae6151..c39984f 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -244,7 +244,9 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     }
 
     // Initial Hole filling by advancing front
-    while (true) {
+    std::queue<Vertex *> que;
+    const int maxSteps = 100 + static_cast<int>(boundary.size() * boundary.size());
+    for (int step = 0;; step++) {
         // Collect boundary vertices
         std::vector<Vertex *> face_vs;
         std::vector<Halfedge *> face_hes;
@@ -253,6 +255,22 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             face_hes.push_back(it.ptr());
         }
         const int N = static_cast<int>(face_vs.size());
+        if (N == 3 || step >= maxSteps) {
+            // Start point for searching internal vertices
+            for (auto v : face_vs) {
+                if (!v->isLocked()) {
+                    que.push(v);
+                    break;
+                }
+            }
+        }
+
+        if (N != 3 && step >= maxSteps) {
+            // The front does not shrink, fill the rest with the existing vertices
+            holeFillMinDihedral_(face);
+            break;
+        }
+
         if (N == 3) {
             for (auto it = face->he_begin(); it != face->he_end(); ++it) {
                 it->isBoundary_ = false;
@@ -528,13 +546,6 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Correct internal vertices
     std::unordered_set<Vertex *> insideVerts;
-    std::queue<Vertex *> que;
-    for (auto it = face->v_begin(); it != face->v_end(); ++it) {
-        if (!it->isLocked()) {
-            que.push(it.ptr());
-            break;
-        }
-    }
     while (!que.empty()) {
         Vertex *v = que.front();
         que.pop();
-- 
2.43.0


From 440a4e60b853699b60d74e39bfa0caf7250b70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:02 +0000
Subject: [PATCH 17/47] fix: do not smooth the patch of an advancing front that
 got stuck

---
 src/tinymesh/core/completion.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index c39984f..5b4462e 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -255,7 +255,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             face_hes.push_back(it.ptr());
         }
         const int N = static_cast<int>(face_vs.size());
-        if (N == 3 || step >= maxSteps) {
+        if (N == 3) {
             // Start point for searching internal vertices
             for (auto v : face_vs) {
                 if (!v->isLocked()) {
@@ -266,9 +266,10 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         }
 
         if (N != 3 && step >= maxSteps) {
-            // The front does not shrink, fill the rest with the existing vertices
+            // The front does not shrink, fill the rest with the existing vertices.
+            // The patch overlaps itself, so that its normals cannot be smoothed.
             holeFillMinDihedral_(face);
-            break;
+            return;
         }
 
         if (N == 3) {
-- 
2.43.0


From 0cf70ff7ae7d5837d5e26bed7a1ff8bbe63f78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:27 +0000
Subject: [PATCH 18/47] fix: do not write past the end of two-dimensional
 vectors

---
 src/tinymesh/core/vec.h | 796 ++++++++++++++++++++--------------------
 1 file changed, 398 insertions(+), 398 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..0f57a2b 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -1,398 +1,398 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef TINYMESH_VEC_H
-#define TINYMESH_VEC_H
-
-#include <array>
-#include <algorithm>
-#include <functional>
-#include <type_traits>
-
-#include <Eigen/Core>
-
-template <typename Float, int Dims>
-class Vec {
-    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
-    static_assert(Dims > 1, "Vector dimension must be more than 1!");
-
-    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
-
-public:
-    Vec() {
-        std::fill(elems.begin(), elems.end(), Float(0.0));
-    }
-
-    explicit Vec(Float x) {
-        std::fill(elems.begin(), elems.end(), x);
-    }
-
-    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
-        std::fill(elems.begin(), elems.end(), w);
-
-        elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
-    }
-
-    explicit Vec(const Vec &other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-    }
-
-    Vec &operator=(const Vec other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-        return *this;
-    }
-
-    Vec(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-    }
-
-    Vec &operator=(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-        return *this;
-    }
-
-    operator EigenVectorType() const {
-        EigenVectorType v;
-        for (int d = 0; d < Dims; d++) {
-            v(d) = elems[d];
-        }
-        return v;
-    }
-
-    bool operator==(const Vec &other) const {
-        if (elems.size() != other.elems.size()) {
-            return false;
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (elems[i] != other.elems[i]) {
-                return false;
-            }
-        }
-
-        return true;
-    }
-
-    bool operator!=(const Vec &other) const {
-        return !this->operator==(other);
-    }
-
-    Vec &operator+=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (size_t i = 0; i < Dims; i++) {
-            elems[i] += other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec operator-() const {
-        Vec<Float, Dims> ret;
-        for (size_t i = 0; i < elems.size(); i++) {
-            ret.elems[i] = -elems[i];
-        }
-        return ret;
-    }
-
-    Vec &operator-=(const Vec &other) {
-        return this->operator+=(-other);
-    }
-
-    Vec &operator*=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator*=(Float s) {
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= s;
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (other.elems[i] == 0.0) {
-                throw std::runtime_error("Zero division!");
-            }
-            elems[i] /= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(double s) {
-        if (s == 0.0) {
-            throw std::runtime_error("Zero division");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] /= s;
-        }
-
-        return *this;
-    }
-
-    Float &operator[](int i) {
-        return elems[i];
-    }
-
-    Float operator[](int i) const {
-        return elems[i];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
-        return elems[0];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
-        return elems[1];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
-        return elems[2];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
-        return elems[3];
-    }
-
-private:
-    std::array<Float, Dims> elems;
-};
-
-// Type definition
-using Vec2 = Vec<double, 2>;
-using Vec3 = Vec<double, 3>;
-
-// standard output
-template <typename Float, int Dims>
-std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
-    os << "[ ";
-    for (int d = 0; d < Dims; d++) {
-        os << v[d];
-        if (d != Dims - 1) os << ", ";
-    }
-    os << " ]";
-    return os;
-}
-
-// Basic arithmetics
-template <typename Float, int Dims>
-Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret += v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret -= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret *= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret /= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret /= s;
-    return ret;
-}
-
-template <typename Float, int Rows, int Cols>
-Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
-    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
-}
-
-// GLSL like vector arithmetics
-template <typename Float, int Dims>
-Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    Float ret = 0.0;
-    for (int i = 0; i < Dims; i++) {
-        ret += v1[i] * v2[i];
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
-                       typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
-    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
-    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
-    return Vec<Float, Dims>{ x, y, z };
-}
-
-template <typename Float, int Dims>
-Float length(const Vec<Float, Dims> &v) {
-    return std::sqrt(dot(v, v));
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
-    return v / length(v);
-}
-
-// Arithmetics for 3D vectors
-
-//! Angle a-b-c in radian (smaller side)
-template <typename Float, int Dims>
-double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
-}
-
-//! check if the triangle is obtuse
-template <typename Float, int Dims>
-bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-            typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
-}
-
-//! cotangent for angle a-b-c
-template <typename Float, int Dims>
-Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-          typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
-}
-
-template <typename Float, int Dims>
-Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
-               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
-    using V = Vec<Float, Dims>;
-    const V e12 = v2 - v1;
-    const V e13 = v3 - v1;
-    const V n1 = cross(e12, e13);
-    const Float l1 = length(n1);
-    const V e42 = v2 - v1rev;
-    const V e43 = v3 - v1rev;
-    const V n4 = cross(e42, e43);
-    const Float l4 = length(n4);
-    if (l1 == 0.0 || l4 == 0.0) {
-        return 0.0;
-    }
-
-    const double cosTheta = dot(n1, n4) / (l1 * l4);
-    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
-}
-
-namespace std {
-
-// Hash
-template <typename Float, int Dims>
-struct hash<Vec<Float, Dims>> {
-    std::size_t operator()(const Vec<Float, Dims> &v) const {
-        std::size_t h = 0;
-        for (int i = 0; i < Dims; i++) {
-            h = std::hash<Float>()(v[i]) ^ (h << 1);
-        }
-        return h;
-    }
-};
-
-template <typename Float, int Dims>
-Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
-    Vec<Float, Dims> ret;
-    for (int d = 0; d < Dims; d++) {
-        ret[d] = std::abs(v[d]);
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::min(v0[d], v1[d]);
-    }
-    return v;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::max(v0[d], v1[d]);
-    }
-    return v;
-}
-
-}  // namespace std
-
-#endif  // TINYMESH_VEC_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef TINYMESH_VEC_H
+#define TINYMESH_VEC_H
+
+#include <array>
+#include <algorithm>
+#include <functional>
+#include <type_traits>
+
+#include <Eigen/Core>
+
+template <typename Float, int Dims>
+class Vec {
+    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
+    static_assert(Dims > 1, "Vector dimension must be more than 1!");
+
+    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
+
+public:
+    Vec() {
+        std::fill(elems.begin(), elems.end(), Float(0.0));
+    }
+
+    explicit Vec(Float x) {
+        std::fill(elems.begin(), elems.end(), x);
+    }
+
+    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
+        std::fill(elems.begin(), elems.end(), w);
+
+        elems[0] = x;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
+    }
+
+    explicit Vec(const Vec &other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+    }
+
+    Vec &operator=(const Vec other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+        return *this;
+    }
+
+    Vec(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+    }
+
+    Vec &operator=(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+        return *this;
+    }
+
+    operator EigenVectorType() const {
+        EigenVectorType v;
+        for (int d = 0; d < Dims; d++) {
+            v(d) = elems[d];
+        }
+        return v;
+    }
+
+    bool operator==(const Vec &other) const {
+        if (elems.size() != other.elems.size()) {
+            return false;
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (elems[i] != other.elems[i]) {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    bool operator!=(const Vec &other) const {
+        return !this->operator==(other);
+    }
+
+    Vec &operator+=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (size_t i = 0; i < Dims; i++) {
+            elems[i] += other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec operator-() const {
+        Vec<Float, Dims> ret;
+        for (size_t i = 0; i < elems.size(); i++) {
+            ret.elems[i] = -elems[i];
+        }
+        return ret;
+    }
+
+    Vec &operator-=(const Vec &other) {
+        return this->operator+=(-other);
+    }
+
+    Vec &operator*=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator*=(Float s) {
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= s;
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (other.elems[i] == 0.0) {
+                throw std::runtime_error("Zero division!");
+            }
+            elems[i] /= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(double s) {
+        if (s == 0.0) {
+            throw std::runtime_error("Zero division");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] /= s;
+        }
+
+        return *this;
+    }
+
+    Float &operator[](int i) {
+        return elems[i];
+    }
+
+    Float operator[](int i) const {
+        return elems[i];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
+        return elems[0];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
+        return elems[1];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
+        return elems[2];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
+        return elems[3];
+    }
+
+private:
+    std::array<Float, Dims> elems;
+};
+
+// Type definition
+using Vec2 = Vec<double, 2>;
+using Vec3 = Vec<double, 3>;
+
+// standard output
+template <typename Float, int Dims>
+std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
+    os << "[ ";
+    for (int d = 0; d < Dims; d++) {
+        os << v[d];
+        if (d != Dims - 1) os << ", ";
+    }
+    os << " ]";
+    return os;
+}
+
+// Basic arithmetics
+template <typename Float, int Dims>
+Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret += v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret -= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret *= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret /= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret /= s;
+    return ret;
+}
+
+template <typename Float, int Rows, int Cols>
+Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
+    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
+}
+
+// GLSL like vector arithmetics
+template <typename Float, int Dims>
+Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    Float ret = 0.0;
+    for (int i = 0; i < Dims; i++) {
+        ret += v1[i] * v2[i];
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
+                       typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
+    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
+    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
+    return Vec<Float, Dims>{ x, y, z };
+}
+
+template <typename Float, int Dims>
+Float length(const Vec<Float, Dims> &v) {
+    return std::sqrt(dot(v, v));
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
+    return v / length(v);
+}
+
+// Arithmetics for 3D vectors
+
+//! Angle a-b-c in radian (smaller side)
+template <typename Float, int Dims>
+double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+             typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
+}
+
+//! check if the triangle is obtuse
+template <typename Float, int Dims>
+bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+            typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float l0 = length(b - a);
+    const Float l1 = length(c - b);
+    const Float l2 = length(a - c);
+    std::array<Float, 3> ls = { l0, l1, l2 };
+    std::sort(ls.begin(), ls.end(), std::less<Float>());
+    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+}
+
+//! cotangent for angle a-b-c
+template <typename Float, int Dims>
+Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+          typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
+}
+
+template <typename Float, int Dims>
+Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
+               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
+    using V = Vec<Float, Dims>;
+    const V e12 = v2 - v1;
+    const V e13 = v3 - v1;
+    const V n1 = cross(e12, e13);
+    const Float l1 = length(n1);
+    const V e42 = v2 - v1rev;
+    const V e43 = v3 - v1rev;
+    const V n4 = cross(e42, e43);
+    const Float l4 = length(n4);
+    if (l1 == 0.0 || l4 == 0.0) {
+        return 0.0;
+    }
+
+    const double cosTheta = dot(n1, n4) / (l1 * l4);
+    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
+}
+
+namespace std {
+
+// Hash
+template <typename Float, int Dims>
+struct hash<Vec<Float, Dims>> {
+    std::size_t operator()(const Vec<Float, Dims> &v) const {
+        std::size_t h = 0;
+        for (int i = 0; i < Dims; i++) {
+            h = std::hash<Float>()(v[i]) ^ (h << 1);
+        }
+        return h;
+    }
+};
+
+template <typename Float, int Dims>
+Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
+    Vec<Float, Dims> ret;
+    for (int d = 0; d < Dims; d++) {
+        ret[d] = std::abs(v[d]);
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::min(v0[d], v1[d]);
+    }
+    return v;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::max(v0[d], v1[d]);
+    }
+    return v;
+}
+
+}  // namespace std
+
+#endif  // TINYMESH_VEC_H
-- 
2.43.0


From 4c9fcea7b7a9f8adba7b8b83b3e4b3b8a68ca1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:27 +0000
Subject: [PATCH 19/47] fix: subtract instead of multiplying in vector minus
 number

---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 0f57a2b..25b8bdf 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From 65488166dae6562c17cc32a7ea3fda575fba4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:27 +0000
Subject: [PATCH 20/47] fix: do not take right triangles for obtuse because of
 rounding

---
 src/tinymesh/core/vec.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 25b8bdf..c116be3 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -315,12 +315,7 @@ double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Flo
 template <typename Float, int Dims>
 bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float l0 = length(b - a);
-    const Float l1 = length(c - b);
-    const Float l2 = length(a - c);
-    std::array<Float, 3> ls = { l0, l1, l2 };
-    std::sort(ls.begin(), ls.end(), std::less<Float>());
-    return ls[0] * ls[0] + ls[1] * ls[1] < ls[2] * ls[2];
+    return dot(b - a, c - a) < Float(0.0) || dot(c - b, a - b) < Float(0.0) || dot(a - c, b - c) < Float(0.0);
 }
 
 //! cotangent for angle a-b-c
-- 
2.43.0


From c86bf6bddfcba9f9a59506eda222436151769fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:27 +0000
Subject: [PATCH 21/47] fix: rotate opposite vectors onto each other

---
 src/tinymesh/core/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/utils.h b/src/tinymesh/core/utils.h
index 64c8457..deb6b85 100644
--- a/src/tinymesh/core/utils.h
+++ b/src/tinymesh/core/utils.h
@@ -51,6 +51,11 @@ inline EigenMatrix3 rotationFromTwoVectors(const Vec3 &v0, const Vec3 &v1) {
     if (std::abs(theta) < 1.0e-12) {
         return EigenMatrix3::Identity();
     }
+    if (length(outer) < 1.0e-12 * length(v0) * length(v1)) {
+        // Opposite vectors: rotate around any axis orthogonal to them
+        const Vec3 other = std::abs(v0.x()) < 0.5 * length(v0) ? Vec3(1.0, 0.0, 0.0) : Vec3(0.0, 1.0, 0.0);
+        return rotationAxisAngle(theta, normalize(cross(v0, other)));
+    }
     const Vec3 axis = normalize(outer);
     return rotationAxisAngle(theta, axis);
 }
-- 
2.43.0


From 2de7219790d7fd0639bb83af50dc26023e9691a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:20 +0000
Subject: [PATCH 22/47] fix: leave hole polygons out of the mean face area

---
 src/tinymesh/core/mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index a079cba..c971a82 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -184,10 +184,13 @@ double Mesh::getMeanDihedralAngle() const {
 
 double Mesh::getMeanFaceArea() const {
     double mean = 0.0;
+    int count = 0;
     for (size_t i = 0; i < faces_.size(); i++) {
+        if (faces_[i]->isHole()) continue;
         mean += faces_[i]->area();
+        count += 1;
     }
-    mean /= (double)faces_.size();
+    mean /= (double)count;
     return mean;
 }
 
-- 
2.43.0


From 298a300c0d5e2ec79d4953ce78ab33920df5d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:18 +0000
Subject: [PATCH 23/47] fix: return finite heat kernel signatures for a single
 time sample

---
 src/tinymesh/ops/features.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..eac4594 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -157,7 +157,7 @@ EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTime
 
     const double log_t_min = std::log(t_min);
     const double log_t_max = std::log(t_max);
-    const double inc = (log_t_max - log_t_min) / (nTimes - 1);
+    const double inc = nTimes > 1 ? (log_t_max - log_t_min) / (nTimes - 1) : 0.0;
     EigenVector times(nTimes);
     for (int i = 0; i < nTimes; i++) {
         times(i) = std::exp(log_t_min + i * inc);
-- 
2.43.0


From a75cf537c901111c5a31671122f4c7a067591acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:18 +0000
Subject: [PATCH 24/47] fix: use orthonormal tangent frames for curvature
 tensors

---
 src/tinymesh/ops/features.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index eac4594..a09f407 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -268,8 +268,12 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
         const Vec3 np = vertex->normal();
         Vec3 up, vp;
         for (auto it = vertex->v_begin(); it != vertex->v_end(); ++it) {
-            up = normalize(it->pos() - vertex->pos());
-            break;
+            // Tangent part of the first edge that is not parallel to the normal
+            const Vec3 side = cross(np, normalize(it->pos() - vertex->pos()));
+            if (length(side) > 1.0e-3) {
+                up = normalize(cross(side, np));
+                break;
+            }
         }
         vp = normalize(cross(np, up));
 
-- 
2.43.0


From eaf038063f4eb4f15dcb18e95f46e4607bf464e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:34 +0000
Subject: [PATCH 25/47] fix: return the principal directions that belong to the
 curvatures

---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index a09f407..8bd317b 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0


From 7b5aebe4c92295f6cda0378382814ed3cae60d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:40 +0000
Subject: [PATCH 26/47] fix: write all significant digits of positions to OBJ
 files

---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index c971a82..31a509f 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -4,6 +4,8 @@
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <set>
 #include <map>
 #include <queue>
@@ -503,6 +505,7 @@ void Mesh::saveOBJ(const std::string &filename) const {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    writer << std::setprecision(std::numeric_limits<double>::max_digits10);
     for (const auto &v : vertices_) {
         writer << "v " << v->pos().x() << " " << v->pos().y() << " " << v->pos().z() << std::endl;
     }
-- 
2.43.0


From 862c074b23159323ed6623a26e7cbffd7fe0800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:40 +0000
Subject: [PATCH 27/47] fix: report files that cannot be opened or written
 completely

---
 src/tinymesh/core/mesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 31a509f..4d93899 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -525,6 +525,9 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
@@ -534,7 +537,7 @@ void Mesh::savePLY(const std::string &filename) const {
     buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
 
     std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.is_open() || outstream.fail()) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
@@ -578,6 +581,9 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+    if (outstream.fail() || buffer.close() == nullptr) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From bbf975d1d49b7e3459c5a3269146ed92bf0401ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:40 +0000
Subject: [PATCH 28/47] fix: report PLY and OBJ files that do not describe a
 triangle mesh

---
 src/tinymesh/core/mesh.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4d93899..a92c485 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -406,11 +406,11 @@ void Mesh::loadOBJ(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     for (const auto &shape : shapes) {
         for (const auto &index : shape.mesh.indices) {
-            Vec3 v;
-            if (index.vertex_index >= 0) {
-                v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
-                         attrib.vertices[index.vertex_index * 3 + 2]);
+            if (index.vertex_index < 0 || index.vertex_index >= (int)(attrib.vertices.size() / 3)) {
+                Error("Vertex index out of range: %d", index.vertex_index);
             }
+            const Vec3 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
+                                attrib.vertices[index.vertex_index * 3 + 2]);
 
             if (uniqueVertices.count(v) == 0) {
                 uniqueVertices[v] = static_cast<uint32_t>(vertices_.size());
@@ -435,7 +435,9 @@ void Mesh::loadPLY(const std::string &filename) {
 
     // Read header
     PlyFile file;
-    file.parse_header(reader);
+    if (!file.parse_header(reader)) {
+        Error("Failed to read header of *.ply file: %s", filename.c_str());
+    }
 
     // Request vertex data
     std::shared_ptr<PlyData> vert_data, norm_data, uv_data, face_data;
@@ -463,6 +465,14 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || vert_data->t != tinyply::Type::FLOAT32) {
+        Error("Vertex positions must be given as float: %s", filename.c_str());
+    }
+
+    if (!face_data || (face_data->t != tinyply::Type::INT32 && face_data->t != tinyply::Type::UINT32)) {
+        Error("Vertex indices must be given as int or uint: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
@@ -478,6 +488,9 @@ void Mesh::loadPLY(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index out of range: %u", i);
+        }
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From 22c1dafe8d5f978cb9fca81c8474458c5067665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:17 +0000
Subject: [PATCH 29/47] fix: report files without any triangle when loading

---
 src/tinymesh/core/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index a92c485..e8748f6 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -85,6 +85,10 @@ void Mesh::load(const std::string &filename) {
         Error("Unsupported file extension: %s", ext.c_str());
     }
 
+    if (indices_.empty()) {
+        Error("No triangles in file: %s", filename.c_str());
+    }
+
     construct();
 }
 
-- 
2.43.0


From 71cebc0c75948bf675b67e0958dcf4b64d3f3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:05 +0000
Subject: [PATCH 30/47] fix: keep the boundary vertex when an edge next to the
 boundary is collapsed

---
 src/tinymesh/core/mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e8748f6..63f75e3 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -751,10 +751,12 @@ bool Mesh::collapseHE(Halfedge *he) {
     Assertion(he->index_ < (int)halfedges_.size(), "Daemon halfedge detected!");
     Assertion(rev->index_ < (int)halfedges_.size(), "Daemon halfedge detected!");
 
-    // Merge vertex to the one with smaller degree
+    // Merge vertex to the one with smaller degree, but always to the one on the boundary
     const int d0 = he->src()->degree();
     const int d1 = rev->src()->degree();
-    if (d0 > d1) {
+    const bool b0 = he->src()->isBoundary();
+    const bool b1 = rev->src()->isBoundary();
+    if (b0 != b1 ? b1 : d0 > d1) {
         std::swap(he, rev);
     }
 
-- 
2.43.0


From da7d3b7905df3d392398502af40fd676f7f12fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:18 +0000
Subject: [PATCH 31/47] fix: keep the curvature of umbilical vertices when
 differentiating curvatures

Principal directions are set to zero at umbilical vertices, so the
tensor of such a vertex was taken as zero in the faces around it.
Use the tensor itself, in its own frame.
---
 src/tinymesh/ops/features.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 8bd317b..d9c2b82 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -392,8 +392,8 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
 
         std::array<EigenVector3, 3> Mfs;
         for (int k = 0; k < 3; k++) {
-            const Vec3 &up = ts_max[ids[k]];
-            const Vec3 &vp = ts_min[ids[k]];
+            const Vec3 &up = std::get<0>(frames[ids[k]]);
+            const Vec3 &vp = std::get<1>(frames[ids[k]]);
             const Vec3 &np = std::get<2>(frames[ids[k]]);
             const EigenMatrix3 rot = rotationFromTwoVectors(nf, np);
 
@@ -403,8 +403,7 @@ getPrincipalCurvaturesWithDerivatives(const Mesh &mesh, bool smoothTensors) {
             new_uf << dot(rot_uf, up), dot(rot_uf, vp);
             new_vf << dot(rot_vf, up), dot(rot_vf, vp);
 
-            EigenMatrix2 M;
-            M << ks_max[ids[k]], 0.0, 0.0, ks_min[ids[k]];
+            const EigenMatrix2 &M = tensors[ids[k]];
             Mfs[k] << secondForm(M, new_uf, new_uf),  //
                 secondForm(M, new_uf, new_vf),        //
                 secondForm(M, new_vf, new_vf);
-- 
2.43.0


From 91f17e76a86f00cd85ff78981ff47091dce748f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:18 +0000
Subject: [PATCH 32/47] fix: feature line field of surfaces without ridges and
 valleys

The extension of the directions was solved with a singular system and
then normalized zero or uninitialized vectors. The field is now zero
where no ridge or valley can be reached.
---
 src/tinymesh/ops/features.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index d9c2b82..b4e509b 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -721,12 +721,17 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
     }
 
     EigenMatrix bb = -SS * xxRV;
-    Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
-    EigenMatrix xx = solver.solve(bb);
+    EigenMatrix xx = EigenMatrix::Zero(countNonRV, 3);
+    if (countRV > 0) {
+        Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
+        xx = solver.solve(bb);
+    }
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
-        rvDirections[it.first] = normalize(Vec3(xx(i, 0), xx(i, 1), xx(i, 2)));
+        const Vec3 d(xx(i, 0), xx(i, 1), xx(i, 2));
+        // Without any ridge or valley in reach, there is no direction
+        rvDirections[it.first] = length(d) > 1.0e-8 ? normalize(d) : Vec3(0.0);
     }
 
     // Convert std::vector to EigenMatrix
-- 
2.43.0


From 8f1eec5fff6b16750267fdf242b7d159d32f814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:18 +0000
Subject: [PATCH 33/47] fix: keep the known vertices during context-coherent
 completion

The repair step collapsed edges and faces between the patch and the
known surface, which removed known vertices and triangles.
---
 src/tinymesh/restore/completion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..2b2cf7d 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -571,6 +571,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
                 Vertex *v = mesh.vertex(tgtId);
                 for (auto it = v->he_begin(); it != v->he_end(); ++it) {
+                    // Known vertices must remain
+                    if (it->src()->isLocked() || it->dst()->isLocked()) continue;
+
                     const Vec3 v0 = it->src()->pos();
                     const Vec3 v1 = it->dst()->pos();
                     const Vec3 vl = it->next()->dst()->pos();
@@ -601,6 +604,13 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 for (auto it = v->f_begin(); it != v->f_end(); ++it) {
                     if (it->index() < 0) continue;
 
+                    // Known vertices must remain
+                    bool isKnown = false;
+                    for (auto vit = it->v_begin(); vit != it->v_end(); ++vit) {
+                        isKnown = isKnown || vit->isLocked();
+                    }
+                    if (isKnown) continue;
+
                     if (it->area() < 0.01 * avgArea) {
                         if (mesh.collapseFace(it.ptr())) {
                             isRepaired = true;
-- 
2.43.0


From 3d7aeca01e1b85d3b3e50ef56dae9a6f67170f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:18 +0000
Subject: [PATCH 34/47] fix: keep the mesh alive while Python holds one of its
 vertices or faces

---
 src/pybind11.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11.cpp b/src/pybind11.cpp
index e9870e9..020e1cf 100644
--- a/src/pybind11.cpp
+++ b/src/pybind11.cpp
@@ -58,8 +58,8 @@ PYBIND11_MODULE(tinymesh, m) {
         .def("clone", &Mesh::clone, py::return_value_policy::move)
         .def("load", &Mesh::load)
         .def("save", &Mesh::save)
-        .def("vertex", &Mesh::vertex, py::return_value_policy::reference)
-        .def("face", &Mesh::face, py::return_value_policy::reference)
+        .def("vertex", &Mesh::vertex, py::return_value_policy::reference_internal)
+        .def("face", &Mesh::face, py::return_value_policy::reference_internal)
         .def("get_vertices", &Mesh::getVertices)
         .def("get_vertex_indices", &Mesh::getVertexIndices)
         .def("num_vertices", &Mesh::numVertices)
-- 
2.43.0


From 9461b0f24cf9d3644f7affbb36b53bf4bbf15f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:40 +0000
Subject: [PATCH 35/47] fix: report an open mesh before the parallel loops of
 the normal filters

---
 src/tinymesh/filters/denoise.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..f0bcdbb 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -31,6 +31,20 @@ inline double K(double x, double sigma) {
     return 0.0;
 }
 
+void checkTriangular(const tinymesh::Mesh &mesh) {
+    for (int i = 0; i < (int)mesh.numFaces(); i++) {
+        tinymesh::Face *f = mesh.face(i);
+        int n = 0;
+        for (auto vit = f->v_begin(); vit != f->v_end(); ++vit) {
+            n++;
+        }
+
+        if (n != 3) {
+            Error("Mesh is not triangular! Call \"mesh.triangulate()\" first!");
+        }
+    }
+}
+
 }  // anonymous namespace
 
 namespace tinymesh {
@@ -40,6 +54,9 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        // Errors cannot leave a parallel region
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
@@ -106,6 +123,9 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
     double avgEdge = mesh.getMeanEdgeLength();
 
     for (int it = 0; it < iterations; it++) {
+        // Errors cannot leave a parallel region
+        checkTriangular(mesh);
+
         // Smooth vertex positions
         smoothTaubin(mesh);
 
-- 
2.43.0


From 306ad5b93ee8d87e0526d2de07b9ff1a8f56653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:50 +0000
Subject: [PATCH 36/47] fix: refuse heat kernel signatures of a single
 eigenvalue

---
 src/tinymesh/ops/features.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index b4e509b..016b112 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -130,6 +130,7 @@ void smoothingTensors(std::vector<EigenMatrix2> &tensors, std::vector<LocalFrame
 
 EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int K, int nTimes) {
     Assertion(K < L.rows(), "Eigenvalues less than matrix size can only be requested!");
+    Assertion(K >= 2, "Two or more eigenvalues are required!");
     const int ncv = std::min(K * 8, (int)L.rows());
 
     // Spectra::SparseSymMatProd<FloatType> op(L);
-- 
2.43.0


From 1f49f429edae5d420b6a097706f5a5f7bf095795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:59 +0000
Subject: [PATCH 37/47] fix: feature line field of meshes with a piece that has
 no ridge or valley

---
 src/tinymesh/ops/features.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 016b112..ce0f8a2 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -659,6 +659,26 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
         }
     }
 
+    // Vertices which are connected to any ridge or valley
+    std::vector<bool> reached(mesh.numVertices(), false);
+    std::vector<int> stack;
+    for (int i = 0; i < (int)mesh.numVertices(); i++) {
+        if (ridgeValleyFlags(i) != 0.0) {
+            reached[i] = true;
+            stack.push_back(i);
+        }
+    }
+    while (!stack.empty()) {
+        const Vertex *v = mesh.vertex(stack.back());
+        stack.pop_back();
+        for (auto it = v->v_begin(); it != v->v_end(); ++it) {
+            if (!reached[it->index()]) {
+                reached[it->index()] = true;
+                stack.push_back(it->index());
+            }
+        }
+    }
+
     // Solve Laplace equation
     std::vector<EigenTriplet> tripNonRV;
     std::vector<EigenTriplet> tripRV;
@@ -675,6 +695,11 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
                 countNonRV++;
             }
             const int row = uniqueNonRV[i];
+            if (!reached[i]) {
+                // The equation would be singular
+                tripNonRV.emplace_back(row, row, 1.0);
+                continue;
+            }
             double sumWgt = 0.0;
             for (auto it = v->he_begin(); it != v->he_end(); ++it) {
                 Vertex *u = it->dst();
-- 
2.43.0


From 128928bad54d0d4ed83b52b10f2e76278d51b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:54 +0000
Subject: [PATCH 38/47] fix: keep the progress bar from running past its end

---
 src/tinymesh/core/progress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..64278f7 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -34,7 +34,7 @@ public:
     }
 
     void step(int n = 1) {
-        m_step += n;
+        m_step = std::min(m_step + n, m_total);
         auto now = std::chrono::system_clock::now();
 
         const double percent = 100.0 * m_step / m_total;
-- 
2.43.0


From 8d608446c97ad1db1220a9b6ec237a941a69e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:57 +0000
Subject: [PATCH 39/47] fix: restore the line endings of the vector header

---
 src/tinymesh/core/vec.h | 786 ++++++++++++++++++++--------------------
 1 file changed, 393 insertions(+), 393 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index c116be3..64de4f6 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -1,393 +1,393 @@
-#ifdef _MSC_VER
-#pragma once
-#endif
-
-#ifndef TINYMESH_VEC_H
-#define TINYMESH_VEC_H
-
-#include <array>
-#include <algorithm>
-#include <functional>
-#include <type_traits>
-
-#include <Eigen/Core>
-
-template <typename Float, int Dims>
-class Vec {
-    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
-    static_assert(Dims > 1, "Vector dimension must be more than 1!");
-
-    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
-
-public:
-    Vec() {
-        std::fill(elems.begin(), elems.end(), Float(0.0));
-    }
-
-    explicit Vec(Float x) {
-        std::fill(elems.begin(), elems.end(), x);
-    }
-
-    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
-        std::fill(elems.begin(), elems.end(), w);
-
-        elems[0] = x;
-        if (Dims >= 2) elems[1] = y;
-        if (Dims >= 3) elems[2] = z;
-    }
-
-    explicit Vec(const Vec &other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-    }
-
-    Vec &operator=(const Vec other) {
-        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
-        return *this;
-    }
-
-    Vec(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-    }
-
-    Vec &operator=(const EigenVectorType &v) {
-        for (int d = 0; d < Dims; d++) {
-            elems[d] = v(d);
-        }
-        return *this;
-    }
-
-    operator EigenVectorType() const {
-        EigenVectorType v;
-        for (int d = 0; d < Dims; d++) {
-            v(d) = elems[d];
-        }
-        return v;
-    }
-
-    bool operator==(const Vec &other) const {
-        if (elems.size() != other.elems.size()) {
-            return false;
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (elems[i] != other.elems[i]) {
-                return false;
-            }
-        }
-
-        return true;
-    }
-
-    bool operator!=(const Vec &other) const {
-        return !this->operator==(other);
-    }
-
-    Vec &operator+=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (size_t i = 0; i < Dims; i++) {
-            elems[i] += other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec operator-() const {
-        Vec<Float, Dims> ret;
-        for (size_t i = 0; i < elems.size(); i++) {
-            ret.elems[i] = -elems[i];
-        }
-        return ret;
-    }
-
-    Vec &operator-=(const Vec &other) {
-        return this->operator+=(-other);
-    }
-
-    Vec &operator*=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator*=(Float s) {
-        for (int i = 0; i < Dims; i++) {
-            elems[i] *= s;
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(const Vec &other) {
-        if (elems.size() != other.elems.size()) {
-            throw std::runtime_error("Dimensions do not match!");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            if (other.elems[i] == 0.0) {
-                throw std::runtime_error("Zero division!");
-            }
-            elems[i] /= other.elems[i];
-        }
-
-        return *this;
-    }
-
-    Vec &operator/=(double s) {
-        if (s == 0.0) {
-            throw std::runtime_error("Zero division");
-        }
-
-        for (int i = 0; i < Dims; i++) {
-            elems[i] /= s;
-        }
-
-        return *this;
-    }
-
-    Float &operator[](int i) {
-        return elems[i];
-    }
-
-    Float operator[](int i) const {
-        return elems[i];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
-        return elems[0];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
-        return elems[1];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
-        return elems[2];
-    }
-
-    template <typename Dummy = Float>
-    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
-        return elems[3];
-    }
-
-private:
-    std::array<Float, Dims> elems;
-};
-
-// Type definition
-using Vec2 = Vec<double, 2>;
-using Vec3 = Vec<double, 3>;
-
-// standard output
-template <typename Float, int Dims>
-std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
-    os << "[ ";
-    for (int d = 0; d < Dims; d++) {
-        os << v[d];
-        if (d != Dims - 1) os << ", ";
-    }
-    os << " ]";
-    return os;
-}
-
-// Basic arithmetics
-template <typename Float, int Dims>
-Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret += v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret -= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret -= Vec<Float, Dims>(s);
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = Vec<Float, Dims>(s);
-    ret -= v;
-    return ret;
-}
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret *= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    auto ret = v1;
-    ret /= v2;
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
-    auto ret = v;
-    ret /= s;
-    return ret;
-}
-
-template <typename Float, int Rows, int Cols>
-Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
-    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
-}
-
-// GLSL like vector arithmetics
-template <typename Float, int Dims>
-Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
-    Float ret = 0.0;
-    for (int i = 0; i < Dims; i++) {
-        ret += v1[i] * v2[i];
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
-                       typename std::enable_if<Dims == 3>::type * = 0) {
-    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
-    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
-    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
-    return Vec<Float, Dims>{ x, y, z };
-}
-
-template <typename Float, int Dims>
-Float length(const Vec<Float, Dims> &v) {
-    return std::sqrt(dot(v, v));
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
-    return v / length(v);
-}
-
-// Arithmetics for 3D vectors
-
-//! Angle a-b-c in radian (smaller side)
-template <typename Float, int Dims>
-double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-             typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
-}
-
-//! check if the triangle is obtuse
-template <typename Float, int Dims>
-bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-            typename std::enable_if<Dims == 3>::type * = 0) {
-    return dot(b - a, c - a) < Float(0.0) || dot(c - b, a - b) < Float(0.0) || dot(a - c, b - c) < Float(0.0);
-}
-
-//! cotangent for angle a-b-c
-template <typename Float, int Dims>
-Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
-          typename std::enable_if<Dims == 3>::type * = 0) {
-    const Vec3 e0 = a - b;
-    const Vec3 e1 = c - b;
-    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
-}
-
-template <typename Float, int Dims>
-Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
-               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
-    using V = Vec<Float, Dims>;
-    const V e12 = v2 - v1;
-    const V e13 = v3 - v1;
-    const V n1 = cross(e12, e13);
-    const Float l1 = length(n1);
-    const V e42 = v2 - v1rev;
-    const V e43 = v3 - v1rev;
-    const V n4 = cross(e42, e43);
-    const Float l4 = length(n4);
-    if (l1 == 0.0 || l4 == 0.0) {
-        return 0.0;
-    }
-
-    const double cosTheta = dot(n1, n4) / (l1 * l4);
-    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
-}
-
-namespace std {
-
-// Hash
-template <typename Float, int Dims>
-struct hash<Vec<Float, Dims>> {
-    std::size_t operator()(const Vec<Float, Dims> &v) const {
-        std::size_t h = 0;
-        for (int i = 0; i < Dims; i++) {
-            h = std::hash<Float>()(v[i]) ^ (h << 1);
-        }
-        return h;
-    }
-};
-
-template <typename Float, int Dims>
-Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
-    Vec<Float, Dims> ret;
-    for (int d = 0; d < Dims; d++) {
-        ret[d] = std::abs(v[d]);
-    }
-    return ret;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::min(v0[d], v1[d]);
-    }
-    return v;
-}
-
-template <typename Float, int Dims>
-Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
-    Vec<Float, Dims> v;
-    for (int d = 0; d < Dims; d++) {
-        v[d] = std::max(v0[d], v1[d]);
-    }
-    return v;
-}
-
-}  // namespace std
-
-#endif  // TINYMESH_VEC_H
+#ifdef _MSC_VER
+#pragma once
+#endif
+
+#ifndef TINYMESH_VEC_H
+#define TINYMESH_VEC_H
+
+#include <array>
+#include <algorithm>
+#include <functional>
+#include <type_traits>
+
+#include <Eigen/Core>
+
+template <typename Float, int Dims>
+class Vec {
+    static_assert(std::is_floating_point<Float>::value, "Vector base type must be floating point number!");
+    static_assert(Dims > 1, "Vector dimension must be more than 1!");
+
+    using EigenVectorType = Eigen::Matrix<Float, Dims, 1>;
+
+public:
+    Vec() {
+        std::fill(elems.begin(), elems.end(), Float(0.0));
+    }
+
+    explicit Vec(Float x) {
+        std::fill(elems.begin(), elems.end(), x);
+    }
+
+    explicit Vec(Float x, Float y, Float z = 0.0, Float w = 0.0) {
+        std::fill(elems.begin(), elems.end(), w);
+
+        elems[0] = x;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
+    }
+
+    explicit Vec(const Vec &other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+    }
+
+    Vec &operator=(const Vec other) {
+        std::copy(other.elems.begin(), other.elems.end(), elems.begin());
+        return *this;
+    }
+
+    Vec(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+    }
+
+    Vec &operator=(const EigenVectorType &v) {
+        for (int d = 0; d < Dims; d++) {
+            elems[d] = v(d);
+        }
+        return *this;
+    }
+
+    operator EigenVectorType() const {
+        EigenVectorType v;
+        for (int d = 0; d < Dims; d++) {
+            v(d) = elems[d];
+        }
+        return v;
+    }
+
+    bool operator==(const Vec &other) const {
+        if (elems.size() != other.elems.size()) {
+            return false;
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (elems[i] != other.elems[i]) {
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    bool operator!=(const Vec &other) const {
+        return !this->operator==(other);
+    }
+
+    Vec &operator+=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (size_t i = 0; i < Dims; i++) {
+            elems[i] += other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec operator-() const {
+        Vec<Float, Dims> ret;
+        for (size_t i = 0; i < elems.size(); i++) {
+            ret.elems[i] = -elems[i];
+        }
+        return ret;
+    }
+
+    Vec &operator-=(const Vec &other) {
+        return this->operator+=(-other);
+    }
+
+    Vec &operator*=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator*=(Float s) {
+        for (int i = 0; i < Dims; i++) {
+            elems[i] *= s;
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(const Vec &other) {
+        if (elems.size() != other.elems.size()) {
+            throw std::runtime_error("Dimensions do not match!");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            if (other.elems[i] == 0.0) {
+                throw std::runtime_error("Zero division!");
+            }
+            elems[i] /= other.elems[i];
+        }
+
+        return *this;
+    }
+
+    Vec &operator/=(double s) {
+        if (s == 0.0) {
+            throw std::runtime_error("Zero division");
+        }
+
+        for (int i = 0; i < Dims; i++) {
+            elems[i] /= s;
+        }
+
+        return *this;
+    }
+
+    Float &operator[](int i) {
+        return elems[i];
+    }
+
+    Float operator[](int i) const {
+        return elems[i];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 1, Dummy>::type x() const {
+        return elems[0];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 2, Dummy>::type y() const {
+        return elems[1];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 3, Dummy>::type z() const {
+        return elems[2];
+    }
+
+    template <typename Dummy = Float>
+    typename std::enable_if<Dims >= 4, Dummy>::type w() const {
+        return elems[3];
+    }
+
+private:
+    std::array<Float, Dims> elems;
+};
+
+// Type definition
+using Vec2 = Vec<double, 2>;
+using Vec3 = Vec<double, 3>;
+
+// standard output
+template <typename Float, int Dims>
+std::ostream &operator<<(std::ostream &os, const Vec<Float, Dims> &v) {
+    os << "[ ";
+    for (int d = 0; d < Dims; d++) {
+        os << v[d];
+        if (d != Dims - 1) os << ", ";
+    }
+    os << " ]";
+    return os;
+}
+
+// Basic arithmetics
+template <typename Float, int Dims>
+Vec<Float, Dims> operator+(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret += v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret -= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret -= Vec<Float, Dims>(s);
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
+    return ret;
+}
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret *= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator*(Float s, const Vec<Float, Dims> &v) {
+    auto ret = v;
+    ret *= s;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    auto ret = v1;
+    ret /= v2;
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> operator/(const Vec<Float, Dims> &v, Float s) {
+    auto ret = v;
+    ret /= s;
+    return ret;
+}
+
+template <typename Float, int Rows, int Cols>
+Vec<Float, Rows> operator*(const Eigen::Matrix<Float, Rows, Cols> &m, const Vec<Float, Cols> &v) {
+    return Vec<Float, Rows>(m * Eigen::Matrix<Float, Cols, 1>(v));
+}
+
+// GLSL like vector arithmetics
+template <typename Float, int Dims>
+Float dot(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2) {
+    Float ret = 0.0;
+    for (int i = 0; i < Dims; i++) {
+        ret += v1[i] * v2[i];
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> cross(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2,
+                       typename std::enable_if<Dims == 3>::type * = 0) {
+    const Float x = v1[1] * v2[2] - v1[2] * v2[1];
+    const Float y = v1[2] * v2[0] - v1[0] * v2[2];
+    const Float z = v1[0] * v2[1] - v1[1] * v2[0];
+    return Vec<Float, Dims>{ x, y, z };
+}
+
+template <typename Float, int Dims>
+Float length(const Vec<Float, Dims> &v) {
+    return std::sqrt(dot(v, v));
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> normalize(const Vec<Float, Dims> &v) {
+    return v / length(v);
+}
+
+// Arithmetics for 3D vectors
+
+//! Angle a-b-c in radian (smaller side)
+template <typename Float, int Dims>
+double angle(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+             typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return std::atan2(length(cross(e0, e1)), dot(e0, e1));
+}
+
+//! check if the triangle is obtuse
+template <typename Float, int Dims>
+bool obtuse(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+            typename std::enable_if<Dims == 3>::type * = 0) {
+    return dot(b - a, c - a) < Float(0.0) || dot(c - b, a - b) < Float(0.0) || dot(a - c, b - c) < Float(0.0);
+}
+
+//! cotangent for angle a-b-c
+template <typename Float, int Dims>
+Float cot(const Vec<Float, Dims> &a, const Vec<Float, Dims> &b, const Vec<Float, Dims> &c,
+          typename std::enable_if<Dims == 3>::type * = 0) {
+    const Vec3 e0 = a - b;
+    const Vec3 e1 = c - b;
+    return dot(e0, e1) / (length(cross(e0, e1)) + (Float)1.0e-20);
+}
+
+template <typename Float, int Dims>
+Float dihedral(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v2, const Vec<Float, Dims> &v3,
+               const Vec<Float, Dims> &v1rev, typename std::enable_if<Dims == 3>::type * = 0) {
+    using V = Vec<Float, Dims>;
+    const V e12 = v2 - v1;
+    const V e13 = v3 - v1;
+    const V n1 = cross(e12, e13);
+    const Float l1 = length(n1);
+    const V e42 = v2 - v1rev;
+    const V e43 = v3 - v1rev;
+    const V n4 = cross(e42, e43);
+    const Float l4 = length(n4);
+    if (l1 == 0.0 || l4 == 0.0) {
+        return 0.0;
+    }
+
+    const double cosTheta = dot(n1, n4) / (l1 * l4);
+    return std::acos(std::max(-1.0, std::min(cosTheta, 1.0)));
+}
+
+namespace std {
+
+// Hash
+template <typename Float, int Dims>
+struct hash<Vec<Float, Dims>> {
+    std::size_t operator()(const Vec<Float, Dims> &v) const {
+        std::size_t h = 0;
+        for (int i = 0; i < Dims; i++) {
+            h = std::hash<Float>()(v[i]) ^ (h << 1);
+        }
+        return h;
+    }
+};
+
+template <typename Float, int Dims>
+Vec<Float, Dims> abs(const Vec<Float, Dims> &v) {
+    Vec<Float, Dims> ret;
+    for (int d = 0; d < Dims; d++) {
+        ret[d] = std::abs(v[d]);
+    }
+    return ret;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> min(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::min(v0[d], v1[d]);
+    }
+    return v;
+}
+
+template <typename Float, int Dims>
+Vec<Float, Dims> max(const Vec<Float, Dims> &v0, const Vec<Float, Dims> &v1) {
+    Vec<Float, Dims> v;
+    for (int d = 0; d < Dims; d++) {
+        v[d] = std::max(v0[d], v1[d]);
+    }
+    return v;
+}
+
+}  // namespace std
+
+#endif  // TINYMESH_VEC_H
-- 
2.43.0


From 0b0869d067fe07b5a1fe27cef44f50a09a13df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:20 +0000
Subject: [PATCH 40/47] fix: make advancing-front filling independent of memory
 addresses

---
 src/tinymesh/core/completion.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 5b4462e..d385822 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -547,6 +547,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Correct internal vertices
     std::unordered_set<Vertex *> insideVerts;
+    std::vector<Vertex *> insideOrder;
     while (!que.empty()) {
         Vertex *v = que.front();
         que.pop();
@@ -555,6 +556,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             continue;
         }
         insideVerts.insert(v);
+        insideOrder.push_back(v);
 
         for (auto it = v->v_begin(); it != v->v_end(); ++it) {
             if (!it->isLocked() && insideVerts.count(it.ptr()) == 0) {
@@ -569,8 +571,9 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         newNormals[v] = v->normal();
     }
 
+    // (each vertex uses the new normals of those before it, so that the order must not depend on their addresses)
     for (int kIter = 0; kIter < 1000; kIter++) {
-        for (Vertex *v : insideVerts) {
+        for (Vertex *v : insideOrder) {
             Vec3 nn = Vec3(0.0);
             double sumWgt = 0.0;
             for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -655,7 +658,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     std::unordered_map<Vertex *, uint32_t> uniqueOuter;
     int countInner = 0;
     int countOuter = 0;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         if (uniqueInner.count(v) == 0) {
             uniqueInner[v] = countInner;
             countInner++;
-- 
2.43.0


From fb7f310de3086456f582b9e867f37e251288ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:34 +0000
Subject: [PATCH 41/47] fix: refuse distances to an empty mesh

---
 src/tinymesh/core/bvh.cpp    | 3 +++
 src/tinymesh/ops/metrics.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 208bb59..5452303 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -3,6 +3,7 @@
 
 #include <stack>
 
+#include "debug.h"
 #include "mesh.h"
 
 namespace tinymesh {
@@ -79,6 +80,8 @@ double BVH::distance(const Vec3 &p) const {
 }
 
 Vec3 BVH::closestPoint(const Vec3 &query) const {
+    Assertion(root != nullptr, "Nearest point of an empty set is requested!");
+
     std::stack<BVHNode *> stk;
     stk.push(root);
 
diff --git a/src/tinymesh/ops/metrics.cpp b/src/tinymesh/ops/metrics.cpp
index 384cf88..8d546ba 100644
--- a/src/tinymesh/ops/metrics.cpp
+++ b/src/tinymesh/ops/metrics.cpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 
+#include "core/debug.h"
 #include "core/bvh.h"
 #include "core/vertex.h"
 #include "core/mesh.h"
@@ -10,6 +11,8 @@
 namespace tinymesh {
 
 double getHausdorffDistance(const Mesh &m0, const Mesh &m1) {
+    Assertion(m0.numVertices() > 0 && m1.numVertices() > 0, "Distance of an empty mesh is requested!");
+
     EigenVector dist01 = getPerVertexShortestDistances(m0, m1);
     EigenVector dist10 = getPerVertexShortestDistances(m1, m0);
 
-- 
2.43.0


From 7ce0b29b5c78ea78e373a3c3bdba55cf261acc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:34 +0000
Subject: [PATCH 42/47] fix: refuse malformed index lists in the spatial index

---
 src/tinymesh/core/bvh.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 5452303..bb7aefb 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -60,6 +60,15 @@ BVH::BVH(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices
 }
 
 void BVH::construct(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices) {
+    if (indices.size() % 3 != 0) {
+        Error("The number of indices must be a multiple of three!");
+    }
+    for (const uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of range: %u", i);
+        }
+    }
+
     tris.clear();
     std::vector<BVHPrimitiveInfo> buildData;
     for (size_t i = 0; i < indices.size(); i += 3) {
-- 
2.43.0


From 66089a47eda8f30c652ff1013e71a3b79e4da0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:53:41 +0000
Subject: [PATCH 43/47] fix: make context-coherent completion independent of
 memory addresses

---
 src/tinymesh/restore/completion.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 2b2cf7d..27c2a3d 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -224,6 +224,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 if (visited.count(f) != 0) continue;
 
                 visited.insert(f);
+                patchFaces[i].push_back(f);
                 for (auto it = f->f_begin(); it != f->f_end(); ++it) {
                     if (visited.count(it.ptr()) == 0 && dist + 1 <= patchRadius) {
                         que.push(std::make_pair(it.ptr(), dist + 1));
@@ -231,7 +232,6 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 }
             }
 
-            patchFaces[i].assign(visited.begin(), visited.end());
             if (ctr->isLocked()) {
                 srcIds.push_back(i);
             } else {
@@ -623,6 +623,15 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
         }
 
         if (isRepaired) {
+            // Forget removed vertices, whose addresses may be used again
+            std::unordered_set<Vertex *> existing;
+            for (int i = 0; i < mesh.numVertices(); i++) {
+                existing.insert(mesh.vertex(i));
+            }
+            for (auto it = hksTable.begin(); it != hksTable.end();) {
+                it = existing.count(it->first) != 0 ? std::next(it) : hksTable.erase(it);
+            }
+
             // Update HKS table
             for (int i = 0; i < mesh.numVertices(); i++) {
                 Vertex *v = mesh.vertex(i);
-- 
2.43.0


From 4300387e8d6d638eec89f68fd7cd7e2d72ba573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:22 +0000
Subject: [PATCH 44/47] fix: denoise edges in a fixed order

---
 src/tinymesh/filters/denoise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index f0bcdbb..ece15a9 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -199,13 +199,14 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
 
     // List unique halfedges
     std::unordered_set<Halfedge *> uniqueHEs;
+    std::vector<Halfedge *> edges;
     for (int i = 0; i < mesh.numHalfedges(); i++) {
         Halfedge *he = mesh.halfedge(i);
         if (uniqueHEs.count(he) != 0) continue;
         if (uniqueHEs.count(he->rev()) != 0) continue;
         uniqueHEs.insert(he);
+        edges.push_back(he);
     }
-    std::vector<Halfedge *> edges(uniqueHEs.begin(), uniqueHEs.end());
     Assertion(edges.size() == ne, "Collecting unique edges inconsistent!");
 
     std::vector<EigenTriplet> tripR;
-- 
2.43.0


From 0ee9a55a5a4c38721a2767ff1590ff0e541eec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:39 +0000
Subject: [PATCH 45/47] fix: solve the L0 denoising equations with a solver for
 symmetric matrices

The other solver does not always converge. On a regular torus with 72
vertices it stopped far from the solution for some vertex numberings, so
that the result depended on the numbering.
---
 src/tinymesh/filters/denoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index ece15a9..2818bcf 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -315,7 +315,7 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
         EigenSparseMatrix A = I + alpha * R.transpose() * R + beta * D.transpose() * D;
         EigenMatrix bb = pVecInit + beta * D.transpose() * delta;
 
-        Eigen::BiCGSTAB<EigenSparseMatrix> cg;
+        Eigen::ConjugateGradient<EigenSparseMatrix, Eigen::Lower | Eigen::Upper> cg;
         cg.compute(A);
         pVec = cg.solve(bb);
         if (cg.info() != Eigen::Success) {
-- 
2.43.0


From 0518003d8bbf4b1fbaae755dfb3ba7c1ee7ad61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:30 +0000
Subject: [PATCH 46/47] fix: give every new vertex a heat kernel signature
 during completion

---
 src/tinymesh/restore/completion.cpp | 31 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 27c2a3d..13de8bb 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -632,20 +632,27 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 it = existing.count(it->first) != 0 ? std::next(it) : hksTable.erase(it);
             }
 
-            // Update HKS table
-            for (int i = 0; i < mesh.numVertices(); i++) {
-                Vertex *v = mesh.vertex(i);
-                if (hksTable.count(v) == 0) {
-                    EigenVector hksv = EigenVector::Zero(hksDims);
-                    int count = 0;
-                    for (auto it = v->v_begin(); it != v->v_end(); ++it) {
-                        if (hksTable.count(it.ptr()) != 0) {
-                            hksv += hksTable[it.ptr()];
-                            count += 1;
+            // Update HKS table (vertices among new vertices only wait for their neighbors)
+            bool isUpdated = true;
+            while (isUpdated) {
+                isUpdated = false;
+                for (int i = 0; i < mesh.numVertices(); i++) {
+                    Vertex *v = mesh.vertex(i);
+                    if (hksTable.count(v) == 0) {
+                        EigenVector hksv = EigenVector::Zero(hksDims);
+                        int count = 0;
+                        for (auto it = v->v_begin(); it != v->v_end(); ++it) {
+                            if (hksTable.count(it.ptr()) != 0) {
+                                hksv += hksTable[it.ptr()];
+                                count += 1;
+                            }
                         }
+                        if (count == 0) continue;
+
+                        hksv /= (double)count;
+                        hksTable[v] = hksv;
+                        isUpdated = true;
                     }
-                    hksv /= (double)count;
-                    hksTable[v] = hksv;
                 }
             }
         }
-- 
2.43.0


From 84650ec0c72600a4b05e6604ba051ce309945119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:27:01 +0000
Subject: [PATCH 47/47] fix: stop walking around a vertex after half of a face
 collapse during completion

---
 src/tinymesh/restore/completion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 13de8bb..4bc9d0c 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -612,7 +612,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                     if (isKnown) continue;
 
                     if (it->area() < 0.01 * avgArea) {
-                        if (mesh.collapseFace(it.ptr())) {
+                        // One of the two edges may be collapsed even if the face as a whole is not
+                        const size_t nVerts = mesh.numVertices();
+                        if (mesh.collapseFace(it.ptr()) || mesh.numVertices() != nVerts) {
                             isRepaired = true;
                             update = true;
                             break;
-- 
2.43.0

