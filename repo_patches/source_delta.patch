From 446136e0ee362cc5cf885731f8fc24c8157bfa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 01/23] fix: axis-aligned box of a Gaussian used the wrong
 eigenvector

The first eigenvalue was projected along the second eigenvector, which swapped
the box's extents along the two axes.
---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..a065fea 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 7e32008bf80488d74631bdfce62dee4c285a0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 02/23] fix: box overlap test missed crossing boxes

The crossing case compared an orientation- and scale-dependent determinant with
an absolute constant, so it was asymmetric and never found crossings of small
(degree-sized) boxes; the intersection of the diagonals is not always inside
both boxes either. Test for a separating edge instead.
---
 include/bbox.hpp | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index a065fea..1cd1e93 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -170,6 +170,22 @@ struct BBox {
                    x + r1 * e.col(0) - r2 * e.col(1);
     }
 
+    static bool separated_by_edge_of(const BBox& a, const BBox& b) {
+        for (int i = 0; i < a.corners.cols(); ++i) {
+            const Eigen::Vector2d edge = a.corners.col((i + 1) % 4) - a.corners.col(i);
+            const Eigen::RowVector2d normal(-edge.y(), edge.x());
+            if (normal.isZero(0)) {
+                continue;
+            }
+            const auto pa = (normal * (a.corners.colwise() - a.corners.col(i))).eval();
+            const auto pb = (normal * (b.corners.colwise() - a.corners.col(i))).eval();
+            if (pa.maxCoeff() < pb.minCoeff() || pb.maxCoeff() < pa.minCoeff()) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     bool intersects(const BBox& other) const {
         for (int i = 0; i < corners.cols(); ++i) {
             if (other.within(corners.col(i))) {
@@ -185,28 +201,10 @@ struct BBox {
             return true;
         }
         // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        // The boxes may still overlap without either having a corner inside the
+        // other. They are convex, so they are disjoint exactly if the normal of
+        // some edge separates them.
+        return !separated_by_edge_of(*this, other) && !separated_by_edge_of(other, *this);
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From 7f3292511870464c13d4427cb611a1556ff4984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 03/23] fix: assignment solver read column-major cost matrices
 transposed

lap() handed C.data() to a solver that indexes row by row, so Eigen's default
(column-major) matrices, as OSPA and GOSPA use, were solved transposed.
---
 include/rlapjv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..de6bc61 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -552,7 +552,9 @@ nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    // rlap indexes the costs row by row, whatever the storage order of C.
+    const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rowC = C;
+    rlap<int, double>(rows, cols, rowC.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From 1ec68f3dc1e11c2c125ad3d2e18b1dab57af0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 04/23] fix: assignment feasibility check was exponential and
 overflowed beyond 30 rows

---
 include/rlapjv.h | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index de6bc61..b255c76 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -514,7 +514,21 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
+// Augmenting path search: assign row to an allowed column, moving other rows if necessary.
+template<typename Allowed>
+bool assignable(const Allowed& allowed, int row, Eigen::VectorXi& colsol, Eigen::Array<bool, Eigen::Dynamic, 1>& visited) {  // NOLINT
+    for (int col = 0; col < allowed.cols(); ++col) {
+        if (!allowed(row, col) || visited[col]) {
+            continue;
+        }
+        visited[col] = true;
+        if (colsol[col] < 0 || assignable(allowed, colsol[col], colsol, visited)) {
+            colsol[col] = row;
+            return true;
+        }
+    }
+    return false;
+}
 
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
@@ -522,33 +536,19 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     int cols = C.cols();
     Eigen::VectorXi colsol(cols);
     rowsol.setZero();
-    colsol.setZero();
+    colsol.setConstant(-1);
     u.setZero();
     v.setZero();
-    int neighbours;
 
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
-        for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
-                }
-            }
-nextcol:;
+    // There is a solution iff all rows can be matched to distinct allowed columns.
+    for (int row = 0; row < rows; ++row) {
+        Eigen::Array<bool, Eigen::Dynamic, 1> visited = Eigen::Array<bool, Eigen::Dynamic, 1>::Constant(cols, false);
+        if (!assignable(notinf, row, colsol, visited)) {
+            //std::cout << "NOK matrix: " << std::endl;
+            //std::cout << C << std::endl;
+            return false;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
-        return false;
-nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From 924964dbe2a1bcadc911c27f224379168dba3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 05/23] fix: OSPA minimised the sum of distances instead of
 their p:th powers

---
 include/lmb.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..a2077a0 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -269,18 +269,10 @@ class SILMB {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
                     targettree.targets[i]->transform_to_global();
                 }
-                C = C.cwiseMin(c);
+                C = C.cwiseMin(c).array().pow(p).eval();
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
-                score = std::pow(cost / n, 1.0 / p);
+                score = std::pow(lap::cost(C, res) / n, 1.0 / p);
             }
         }
         return score;
-- 
2.43.0


From eb4d352f21e7eb05444b26bc5a64846a848ebc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 06/23] fix: scoring and density queries moved the targets

---
 include/lmb.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index a2077a0..f775383 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,9 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
-                t->transform_to_local(origin);
-                t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                auto pdf = t->pdf;
+                pdf.transform_to_local(origin);
+                pdf.sample_pos(samples);
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +265,11 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
+                    // Keep the pdf, as the conversion back is not exact
+                    const auto pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C = C.cwiseMin(c).array().pow(p).eval();
 
@@ -308,9 +310,11 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
+                    // Keep the pdf, as the conversion back is not exact
+                    const auto pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
-- 
2.43.0


From 3abca986a2543f8336f6b549807ca72f0ace1a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 07/23] fix: number of clusters was uninitialised before the
 first correction

---
 include/lmb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index f775383..abb2c18 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -40,7 +40,7 @@ class SILMB {
     Params params;
 
     TargetTree targettree;
-    unsigned nof_clusters;
+    unsigned nof_clusters = 0;
     std::vector<int> cluster_ntargets;
     std::vector<int> cluster_nreports;
     std::vector<int> cluster_nhyps;
-- 
2.43.0


From e1b0085494cca5e1417cc8c0219ea4dc0cbc30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 08/23] fix: copies of a target summary referred to the
 original's existence probability

---
 include/target.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..120f358 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,17 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    // r always refers to the object's own weight
+    TargetSummary_(const Self& o)
+    : Parent(o), r(this->w), id(o.id), cid(o.cid) {}
+
+    Self& operator=(const Self& o) {
+        Parent::operator=(o);
+        id = o.id;
+        cid = o.cid;
+        return *this;
+    }
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From 807bde7fab8732a3bc06f0779c03aba00681d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 09/23] fix: cluster_nhyps returned the number of reports in
 Python

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From d6aa0307975ef7585058f7932d15bd5a734011e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 10/23] fix: random generator was shared between threads
 without synchronisation

---
 include/statistics.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..b0393a8 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -5,10 +5,10 @@
 #include "statistics.hpp"
 
 namespace lmb {
-    std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // The generators keep state, so each thread needs its own
+    thread_local std::mt19937 gen{std::random_device{}()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0


From 5b215e8736299c7b8edfda4c3c04c459df35e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 11/23] fix: rounding could make the missed detection
 probability negative

---
 include/gm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..820dc5e 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -109,7 +109,7 @@ struct GM {
         for (unsigned i = 0; i < c.size(); ++i) {
             eta += c[i].w * s.pD(c[i], origin);
         }
-        return 1 - eta;
+        return std::max(0.0, 1 - eta);  // Weights may sum to just above one
     }
 
     template<typename FT, typename QT>
-- 
2.43.0


From bc234f67633071ea2e653f8773519795d0679f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 12/23] fix: impossible associations gave NaN birth
 probabilities that blocked all births

---
 include/cluster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..44c5a83 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -105,7 +105,9 @@ struct Cluster_ {
                 }
             }
             if (n > 0) {
-                R /= w_sum;
+                if (w_sum > 0) {
+                    R /= w_sum;
+                }
 
                 // Update each target according to the hypotheses' associations
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From 56b6a73527c7a9231ab1dd1300f98c72de5e20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 13/23] fix: mixture sampling left samples unset and only
 filled two states

---
 include/gm.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 820dc5e..4b2b53a 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -204,25 +204,36 @@ struct GM {
         }
     }
 
+    // One past the last of n samples to draw from component i, wsum being the
+    // weight of the components up to and including i. The last component gets
+    // the remainder, so that every sample is drawn.
+    unsigned sample_end(const unsigned i, const double wsum, const unsigned n) const {
+        return i + 1 < c.size() ? std::min<unsigned>(n, std::lround(wsum * n)) : n;
+    }
+
     template<typename RES>
     void sample(RES& res) const {
         unsigned col = 0;
+        double wsum = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            wsum += c[i].w;
+            unsigned end = sample_end(i, wsum, res.cols());
+            auto tmp = res.middleCols(col, end - col);
             c[i].sample(tmp);
-            col += csamples;
+            col = end;
         }
     }
 
     template<typename RES>
     void sample_pos(RES& res) const {
         unsigned col = 0;
+        double wsum = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            wsum += c[i].w;
+            unsigned end = sample_end(i, wsum, res.cols());
+            auto tmp = res.block(0, col, 2, end - col);
             c[i].sample_pos(tmp);
-            col += csamples;
+            col = end;
         }
     }
 
-- 
2.43.0


From 5f269ace9ae50342261d444d1c0b7a91ee77f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 14/23] fix: published covariance of a target left out the
 spread of its components

---
 include/lmb.hpp    | 12 ++----------
 include/target.hpp |  7 +++++--
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index abb2c18..b202707 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -182,11 +182,7 @@ class SILMB {
         CRITICAL(ttree)
         {
             for (auto& t : targettree.targets) {
-                res.emplace_back(t->pdf.mean(),
-                                 t->pdf.cov(),
-                                 t->r,
-                                 t->id,
-                                 t->cid);
+                res.push_back(t->summary());
             }
         }
         return res;
@@ -197,11 +193,7 @@ class SILMB {
         CRITICAL(ttree)
         {
             for (auto& t : targettree.query(aabbox)) {
-                res.emplace_back(t->pdf.mean(),
-                                 t->pdf.cov(),
-                                 t->r,
-                                 t->id,
-                                 t->cid);
+                res.push_back(t->summary());
             }
         }
         return res;
diff --git a/include/target.hpp b/include/target.hpp
index 120f358..5d26339 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -204,8 +204,11 @@ struct Target_ {
         pdf.sampled_pos_pdf(points, res, r);
     }
 
-    Gaussian summary() {
-        return TargetSummary(pdf.mean(), pdf.cov(), r, id, cid);
+    TargetSummary summary() const {
+        // The covariance is metric, so the spread of the components has to be too
+        auto local = pdf;
+        local.transform_to_local();
+        return TargetSummary(pdf.mean(), local.cov(), r, id, cid);
     }
 
     void repr(std::ostream& os) const {
-- 
2.43.0


From e4f88bdec872521eda9cfcda44c666c17d486cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 15/23] fix: assignment solver could take practically forever
 on contested columns

---
 include/rlapjv.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index b255c76..556b186 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -305,6 +305,10 @@ cost rlap(int dim0, int dim1,
         idx k = 0;
         idx prevnumfree = numfree;
         numfree = 0; // start list of rows still free after augmenting row reduction.
+        // Rows competing for the same columns can lower the prices in arbitrarily
+        // small steps, so the number of reductions has to be bounded. Rows left
+        // free are assigned below.
+        long reductions_left = static_cast<long>(dim0) * dim1;
         while (k < prevnumfree)
         {
             idx i = free[k++];
@@ -337,7 +341,7 @@ cost rlap(int dim0, int dim1,
 
             if (i0 >= 0)
             { // minimum column j1 assigned earlier.
-                if (vj1_lowers)
+                if (vj1_lowers && reductions_left-- > 0)
                 {
                     // put in current k, and go back to that k.
                     // continue augmenting path i - j1 with i0.
-- 
2.43.0


From 34cdf44dae632ff518207067b70a4fa6c8b4a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 16/23] fix: covariance ellipses were drawn with a wrong
 orientation

---
 clmb.py     | 2 +-
 lmb/plot.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/clmb.py b/clmb.py
index e89da73..0799252 100644
--- a/clmb.py
+++ b/clmb.py
@@ -142,7 +142,7 @@ def plot_traces(targets, cseed=0, covellipse=True, max_back=None, **kwargs):
 def plot_cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=theta, **kwargs)
+    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
diff --git a/lmb/plot.py b/lmb/plot.py
index 2030898..5f18b78 100644
--- a/lmb/plot.py
+++ b/lmb/plot.py
@@ -95,7 +95,8 @@ def clusters(history, origin, c=0):
 def cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = calc_cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=theta, **kwargs)
+    # theta is the bearing of the major axis (from north, positive to the east)
+    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=-np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
-- 
2.43.0


From 468fb9b7ac04a2de9aa9057392b68b948794a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 17/23] fix: Application.plot_tracks called plot functions that
 do not exist

---
 lmb/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lmb/application.py b/lmb/application.py
index 9de9656..1236e16 100644
--- a/lmb/application.py
+++ b/lmb/application.py
@@ -82,8 +82,8 @@ class Application:
         extent = (neregion.min[1], neregion.max[1], neregion.min[0], neregion.max[0])
         lmb.plot.phd(phd, extent=extent)
 
-        lmb.plot.plot_scan(reports, self.origin, bbox=True, show_cid=True, clustercolor=True)
-        lmb.plot.plot_tracks(history, self.origin, covellipse=True, bbox=True, min_r=0.3, clustercolor=True)
+        lmb.plot.scan(reports, self.origin, draw_bbox=True, show_cid=True, clustercolor=True)
+        lmb.plot.tracks(history, self.origin, covellipse=True, draw_bbox=True, min_r=0.3, clustercolor=True)
         plt.gca().set_xlim(extent[0:2])
         plt.gca().set_ylim(extent[2:4])
 
-- 
2.43.0


From a6d2ad527aa3d9169da212caa6d14793a35a87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 18/23] fix: corrected covariance could become asymmetric or
 indefinite

---
 include/gaussian.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gaussian.hpp b/include/gaussian.hpp
index ddc5258..4c2b93d 100644
--- a/include/gaussian.hpp
+++ b/include/gaussian.hpp
@@ -31,12 +31,15 @@ struct alignas(16) Gaussian_ {
     double correct(const typename Sensor::Report& z, const Sensor& s, const cf::LL& origin) {
         auto dz = (z.mean() - s.measurement(x)).eval();
         auto Dinv = (s.H * P * s.H.transpose() + z.cov()).inverse().eval();
-        auto K = P * s.H.transpose() * Dinv;
+        const auto K = (P * s.H.transpose() * Dinv).eval();
         //std::cout << "pD: " << s.pD(*this, origin) << std::endl;
         //std::cout << "likelihood: " << z.likelihood(dz, Dinv) << std::endl;
         w *= s.pD(*this, origin) * z.likelihood(dz, Dinv) / z.kappa;
         x += K * dz;
-        P -= K * s.H * P;
+        // Joseph's form: P stays symmetric and positive definite also when
+        // the report is much more precise than the prediction
+        const Covariance A = Covariance::Identity() - K * s.H;
+        P = (A * P * A.transpose() + K * z.cov() * K.transpose()).eval();
 
         return w;
     }
-- 
2.43.0


From 5bcdefa04c9040d70df2e4bc29dc87e3209e7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 19/23] fix: a missed detection moved a particle cloud's weight
 to where it would have been seen

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..43aad47 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -106,10 +106,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0


From dd6486cea5eda89dcf1ea5e8aafcdcbc383c2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 20/23] fix: particle resampling shared its cursor between
 threads

---
 include/pf.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 43aad47..1d8f106 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -150,7 +150,6 @@ struct PF {
         unsigned j = 0;
 
         States x2; x2.resize(STATES, N);
-        PARFOR
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
             while (cdf[j] < u) { ++j; }
-- 
2.43.0


From b5071584cd0529a103ac09f8aee8da6b343b7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 21/23] fix: joint weights of many targets in one cluster
 exceeded the range of a double

---
 include/cluster.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 44c5a83..7eb6460 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -85,11 +85,15 @@ struct Cluster_ {
             double cost;
             double w;
             double w_sum = 0;
+            double cost0 = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                // Relative to the best hypothesis, as the absolute weights
+                // of many targets exceed the range of a double
+                if (n == 0) { cost0 = cost; }
+                w = std::exp(cost0 - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From a2a21b77895a40c3c4572f371343a2163d67eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 22/23] fix: the geographic box of a particle cloud was never
 set

---
 include/pf.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 1d8f106..df0322b 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -46,7 +46,6 @@ struct PF {
 
     BBox bbox;
     AABBox aabbox;
-    AABBox _llaabbox;
     double eta;
     Weights w;
     States x;
@@ -132,7 +131,7 @@ struct PF {
     }
 
     bool intersects(const AABBox& fov) {
-        return _llaabbox.intersects(fov);
+        return aabbox.intersects(fov);
     }
 
     double neff() const {
@@ -236,7 +235,7 @@ struct PF {
     }
 
     AABBox llaabbox() {
-        return _llaabbox;
+        return aabbox;
     }
 
     void transform_to_local(const cf::LL& origin_) {
-- 
2.43.0


From b580c2b4145145b344e85991e2e3990ff4fe6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:54 +0000
Subject: [PATCH 23/23] fix: new particle clouds were not in use: no box, and
 no resampling after merging

---
 include/pf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf.hpp b/include/pf.hpp
index df0322b..82fe875 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -77,6 +77,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        valid = true;
         transform_to_local(pos());
         transform_to_global();
     }
-- 
2.43.0

