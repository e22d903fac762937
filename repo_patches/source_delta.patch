From f4f2f80ab6ca4ab8add13236fa558d80fe5d4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 01/65] fix: recompute cached box lengths when the
 dimensionality changes

---
 freud/box/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..b67d011 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -117,9 +117,9 @@ public:
     //! Set whether box is 2D
     void set2D(bool _2d)
     {
+        // Recompute all cached lengths so that none of them remains stale.
         m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        setL(m_L.x, m_L.y, m_L.z);
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From f0a39851248ec8c6762ab8918ccfea1ca5fdda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 02/65] fix: make get_images and contains consistent with wrap
 on box faces

---
 freud/box/Box.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index b67d011..ddcc263 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -275,14 +275,12 @@ public:
      */
     void getImage(const vec3<float>& v, vec3<int>& image) const
     {
-        vec3<float> f = makeFractional(v) - vec3<float>(0.5, 0.5, 0.5);
-        if (m_2d)
-        {
-            f.z = float(0.0);
-        }
-        image.x = (int) ((f.x >= float(0.0)) ? f.x + float(0.5) : f.x - float(0.5));
-        image.y = (int) ((f.y >= float(0.0)) ? f.y + float(0.5) : f.y - float(0.5));
-        image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));
+        // The primary cell is half-open, so the image must be consistent with
+        // the fractional coordinates that wrap() would produce.
+        vec3<float> const f = makeFractional(v);
+        image.x = (int) std::round(f.x - util::modulusPositive(f.x, float(1.0)));
+        image.y = (int) std::round(f.y - util::modulusPositive(f.y, float(1.0)));
+        image.z = (int) std::round(f.z - util::modulusPositive(f.z, float(1.0)));
     }
 
     //! Get the periodic image vectors belongs to
-- 
2.43.0


From bebd1f8a156ea9ed07a830ad6c53392401917c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 03/65] fix: expose LinkCell cell width under the name the
 Python property uses

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From ff1291f4782b1dd54bde3cfda4261368d2d48a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 04/65] fix: make all-pairs bond vectors point from query point
 to point

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..83b7056 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,7 +118,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(query_points[i] - points[j]);
+                const auto dr = -box.wrap(query_points[i] - points[j]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
                 (*m_vectors)(bond_idx) = dr;
                 ++bond_idx;
-- 
2.43.0


From a1f91e09c41735116d2cb37aef6953bdab20d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 05/65] fix: reject NeighborList filters whose length is not
 the number of bonds

---
 freud/locality.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..3f8c8bc 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -720,6 +720,9 @@ class NeighborList:
             nlist.filter(types[nlist.query_point_indices] != types[nlist.point_indices])
         """  # E501
         filt = np.ascontiguousarray(filt, dtype=bool)
+        if filt.shape != (len(self),):
+            msg = f"The filter must have one entry per bond ({len(self)})."
+            raise ValueError(msg)
         self._cpp_obj.filter(filt)
         return self
 
-- 
2.43.0


From 36563dfebc9e0482b3259a68e1b4429ea0deceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 06/65] fix: do not bin NaN values in histograms

---
 freud/util/Histogram.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/util/Histogram.h b/freud/util/Histogram.h
index 9aa63d7..aa3bb65 100644
--- a/freud/util/Histogram.h
+++ b/freud/util/Histogram.h
@@ -154,7 +154,8 @@ public:
         // Since we're using an unsigned int cast for truncation, we must
         // ensure that we will be working with a positive number or we will
         // fail to detect underflow.
-        if (value < m_min || value >= m_max)
+        // The comparison is written such that NaN is also rejected.
+        if (!(value >= m_min && value < m_max))
         {
             return OVERFLOW_BIN;
         }
-- 
2.43.0


From 67fee73fb4520eafbd4ad90b69b88fe215a06253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 07/65] fix: keep the number of points and query points in
 filtered neighbor lists

---
 freud/locality/FilterRAD.cc    |  3 +++
 freud/locality/FilterSANN.cc   |  3 +++
 freud/locality/NeighborList.cc | 12 ++++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..24b24b0 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -128,6 +128,9 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
     m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    // The filtered list describes the same system as the unfiltered one.
+    m_filtered_nlist->setNumBonds(rad_bonds.size(), m_unfiltered_nlist->getNumQueryPoints(),
+                                  m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..5e32b52 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -100,6 +100,9 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
     m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    // The filtered list describes the same system as the unfiltered one.
+    m_filtered_nlist->setNumBonds(sann_bonds.size(), m_unfiltered_nlist->getNumQueryPoints(),
+                                  m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 83b7056..771477a 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -166,8 +166,16 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
     });
 
     // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
+    if (bonds.empty())
+    {
+        m_num_points = 0;
+        m_num_query_points = 0;
+    }
+    else
+    {
+        m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
+        m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
+    }
     m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
     m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
     m_segments_counts_updated = false;
-- 
2.43.0


From 647e58bf28603ef8003e3618793e2d772749b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 08/65] fix: keep bond vectors and weights in FilterRAD

---
 freud/locality/FilterRAD.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 24b24b0..efe8b20 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -47,6 +47,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -93,7 +94,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), sorted_vecs(first_idx + j));
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From e8d969774de728e3a37448ca665465abd8b2b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 09/65] fix: compute rotational autocorrelation in double
 precision to avoid factorial overflow

---
 freud/order/RotationalAutocorrelation.cc | 47 ++++++++++++------------
 freud/order/RotationalAutocorrelation.h  | 10 ++---
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..27a52c5 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -23,13 +23,13 @@ namespace freud { namespace order {
 // serves as a micro-optimization since std::pow can be slow. We can take the
 // exponent to be an unsigned int since all the sums in the hyperspherical
 // harmonic below guarantee this.
-inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
+inline std::complex<double> cpow(std::complex<double> base, unsigned int p)
 {
     if (p == 0)
     {
         return {1, 0};
     }
-    std::complex<float> val(base);
+    std::complex<double> val(base);
     for (unsigned int i = 1; i < p; i++)
     {
         val *= base;
@@ -37,21 +37,20 @@ inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
     return val;
 }
 
-inline std::complex<float> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<float> xi,
-                                                                           std::complex<float> zeta,
-                                                                           const unsigned int m1,
-                                                                           const unsigned int m2)
+inline std::complex<double> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<double> xi,
+                                                                            std::complex<double> zeta,
+                                                                            const unsigned int m1,
+                                                                            const unsigned int m2)
 {
-    const std::complex<float> xi_conj = std::conj(xi);
-    const std::complex<float> zeta_conj = std::conj(zeta);
+    const std::complex<double> xi_conj = std::conj(xi);
+    const std::complex<double> zeta_conj = std::conj(zeta);
 
     // Doing a summation over non-negative exponents, which requires the additional inner conditional.
-    std::complex<float> sum_tracker(0, 0);
+    std::complex<double> sum_tracker(0, 0);
     for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)
     {
-        const float fact_product = static_cast<float>((*m_factorials)[k])
-            * static_cast<float>((*m_factorials)[m_l + k - m1 - m2])
-            * static_cast<float>((*m_factorials)[m1 - k]) * static_cast<float>((*m_factorials)[m2 - k]);
+        const double fact_product = (*m_factorials)[k] * (*m_factorials)[m_l + k - m1 - m2]
+            * (*m_factorials)[m1 - k] * (*m_factorials)[m2 - k];
         sum_tracker += cpow(xi_conj, k) * cpow(zeta, m2 - k) * cpow(zeta_conj, m1 - k)
             * cpow(-xi, m_l + k - m1 - m2) / fact_product;
     }
@@ -67,18 +66,17 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
     // default quaternion constructor gives a unit quaternion. We will assume
     // the same iteration order here as in the loop below to save ourselves
     // from having to use a more expensive process (i.e. a map).
-    const std::complex<float> xi = std::complex<float>(0, 0);
-    const std::complex<float> zeta = std::complex<float>(0, 1);
-    std::vector<std::complex<float>> unit_harmonics;
-    std::vector<std::vector<float>> prefactors(m_l + 1, std::vector<float>(m_l + 1, float(0)));
+    const std::complex<double> xi = std::complex<double>(0, 0);
+    const std::complex<double> zeta = std::complex<double>(0, 1);
+    std::vector<std::complex<double>> unit_harmonics;
+    std::vector<std::vector<double>> prefactors(m_l + 1, std::vector<double>(m_l + 1, 0));
     for (unsigned int a = 0; a <= m_l; a++)
     {
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                * (*m_factorials)[m_l - b] / static_cast<double>(m_l + 1);
         }
     }
 
@@ -88,22 +86,23 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         {
             // Transform the orientation quaternions into Xi/Zeta coordinates;
             const quat<float> qq_1 = conj(ref_orientations[i]) * orientations[i];
-            const std::complex<float> xi = std::complex<float>(qq_1.v.x, qq_1.v.y);
-            const std::complex<float> zeta = std::complex<float>(qq_1.v.z, qq_1.s);
+            const std::complex<double> xi = std::complex<double>(qq_1.v.x, qq_1.v.y);
+            const std::complex<double> zeta = std::complex<double>(qq_1.v.z, qq_1.s);
 
             // Loop through the valid quantum numbers.
-            (*m_RA_array)[i] = std::complex<float>(0, 0);
+            std::complex<double> autocorrelation(0, 0);
             unsigned int uh_index = 0;
             for (unsigned int a = 0; a <= m_l; a++)
             {
                 for (unsigned int b = 0; b <= m_l; b++)
                 {
-                    const std::complex<float> combined_value
+                    const std::complex<double> combined_value
                         = unit_harmonics[uh_index] * hypersphere_harmonic(xi, zeta, a, b);
-                    (*m_RA_array)[i] += prefactors[a][b] * combined_value;
+                    autocorrelation += prefactors[a][b] * combined_value;
                     uh_index += 1;
                 }
             }
+            (*m_RA_array)[i] = std::complex<float>(autocorrelation);
         }
     });
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..8b8ddea 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -56,11 +56,11 @@ public:
     {
         // For efficiency, we precompute all required factorials for use during
         // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
-            (*m_factorials)[i] = i * (*m_factorials)[i - 1];
+            (*m_factorials)[i] = static_cast<double>(i) * (*m_factorials)[i - 1];
         }
     }
 
@@ -116,14 +116,14 @@ private:
      *  method to access the cached factorial values for the class's value of
      *  m_l.
      */
-    std::complex<float> hypersphere_harmonic(const std::complex<float> xi, std::complex<float> zeta,
-                                             const unsigned int m1, const unsigned int m2);
+    std::complex<double> hypersphere_harmonic(const std::complex<double> xi, std::complex<double> zeta,
+                                              const unsigned int m1, const unsigned int m2);
 
     unsigned int m_l; //!< Order of the hyperspherical harmonic.
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials; //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From c1b7e3ef857c93aa4f1a2f644bb84a7353fbf62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 10/65] fix: use each cluster member's own mass for the cluster
 centre of mass

---
 freud/cluster/ClusterProperties.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..d47152d 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -46,6 +46,7 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
 
     // Create a vector to store cluster points, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -58,23 +59,15 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
         (*m_cluster_masses)[c] += mass;
+        cluster_point_masses[c].push_back(mass);
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses[c].data());
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 4b7aae09bdb96f99d7082f9697ea08a4ad52f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 11/65] fix: require one mass per point in ClusterProperties

---
 freud/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
-- 
2.43.0


From 71a077b70530a0ae04128209e515579be0c9f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 12/65] fix: index AngularSeparationNeighbor orientations by
 query point and point

---
 freud/environment.py                   | 7 +++----
 freud/environment/AngularSeparation.cc | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index edb2681..6f2e8c7 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From 4cb48a981fe355fc22cbefe006086019183ab5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 13/65] fix: let the AABB nearest neighbor search use the
 radius it searched to decide termination

---
 freud/locality/AABBQuery.cc                | 28 +++++++++-------------
 freud/locality/NeighborComputeFunctional.h |  2 ++
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..e043dbc 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -177,10 +177,18 @@ NeighborBond AABBQueryIterator::next()
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
+
+            // If the search radius goes beyond the cutoff radius, we need to
+            // track what particles are already in the set so that we can make
+            // sure that we find the closest image because we run the risk of
+            // finding duplicates.
+            const float r_search = std::min(m_r_cur, m_r_max);
+            m_search_extended = r_search > min_plane_distance / 2;
+
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
-                                                          std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);
+                                                          r_search, 0, m_exclude_ii, false);
             while (!ball_it->end())
             {
                 NeighborBond nb = ball_it->next();
@@ -218,7 +226,7 @@ NeighborBond AABBQueryIterator::next()
                 }
             }
 
-            // Break if there are enough neighbors, or if we are querying beyond the limits of
+            // Break if there are enough neighbors, or if we have queried beyond the limits of
             // the periodic box.
             m_r_cur *= m_scale;
 
@@ -228,7 +236,7 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((r_search >= m_r_max) || (r_search >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -246,20 +254,6 @@ NeighborBond AABBQueryIterator::next()
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
-
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
         }
     }
 
diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 31fe84a2d746053f82a8844f9022243b47b2b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 14/65] fix: search all cells along the longest box direction
 in LinkCell nearest neighbor queries

---
 freud/locality/LinkCell.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..ed1e2a6 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -578,13 +578,14 @@ NeighborBond LinkCellQueryIterator::next()
     float const r_min_sq = m_r_min * m_r_min;
 
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
-    float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
+    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
-        min_plane_distance = std::min(min_plane_distance, plane_distance.z);
+        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
     }
+    // The search must be able to reach every cell, also along the longest direction of the box.
     unsigned int const max_range
-        = static_cast<unsigned int>(std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
+        = static_cast<unsigned int>(std::ceil(max_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
 
     vec3<unsigned int> const point_cell(m_linkcell->getCellCoord(m_query_point));
     // NOLINTBEGIN(bugprone-narrowing-conversions): narrowing coversion is working as expected
-- 
2.43.0


From 4857596d436b93ec040e83cb5b799415890e4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 15/65] fix: wrap negative LinkCell cell coordinates before
 converting them to unsigned

---
 freud/locality/LinkCell.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index ed1e2a6..53cb1f4 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -356,14 +356,15 @@ unsigned int LinkCell::coordToIndex(unsigned int x, unsigned int y, unsigned int
 vec3<unsigned int> LinkCell::getCellCoord(const vec3<float>& p) const
 {
     vec3<float> const alpha = m_box.makeFractional(p);
-    vec3<unsigned int> c;
-    c.x = (unsigned int) std::floor(alpha.x * float(m_celldim.x));
-    c.x %= m_celldim.x;
-    c.y = (unsigned int) std::floor(alpha.y * float(m_celldim.y));
-    c.y %= m_celldim.y;
-    c.z = (unsigned int) std::floor(alpha.z * float(m_celldim.z));
-    c.z %= m_celldim.z;
-    return c;
+    // Points on (or rounded past) the lower box faces have negative cell coordinates, which must be
+    // wrapped before converting to unsigned.
+    const auto wrap_cell = [](float coord, unsigned int dim) {
+        const int w = static_cast<int>(dim);
+        const int cell = static_cast<int>(std::floor(coord * static_cast<float>(dim))) % w;
+        return static_cast<unsigned int>(cell < 0 ? cell + w : cell);
+    };
+    return {wrap_cell(alpha.x, m_celldim.x), wrap_cell(alpha.y, m_celldim.y),
+            wrap_cell(alpha.z, m_celldim.z)};
 }
 
 const std::vector<unsigned int>& LinkCell::getCellNeighbors(unsigned int cell) const
-- 
2.43.0


From 47a8984b2a15360795b8768cb4333938c10a333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 16/65] fix: keep the default LinkCell cell width within half
 of the box

---
 freud/locality/LinkCell.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 53cb1f4..5955a36 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -235,10 +235,21 @@ LinkCell::LinkCell(const box::Box& box, const vec3<float>* points, unsigned int
         m_cell_width = std::cbrtf(box.getVolume() / static_cast<float>(desired_num_cells));
     }
 
+    vec3<float> const nearest_plane_distance = box.getNearestPlaneDistance();
+    if (cell_width == 0)
+    {
+        // The estimate must still be a valid cell width for this box.
+        float min_plane_distance = std::min(nearest_plane_distance.x, nearest_plane_distance.y);
+        if (!box.is2D())
+        {
+            min_plane_distance = std::min(min_plane_distance, nearest_plane_distance.z);
+        }
+        m_cell_width = std::min(m_cell_width, min_plane_distance / 2.0F);
+    }
+
     m_celldim = computeDimensions(box, m_cell_width);
 
     // Check if box is too small!
-    vec3<float> const nearest_plane_distance = box.getNearestPlaneDistance();
     if ((m_cell_width * 2.0 > nearest_plane_distance.x) || (m_cell_width * 2.0 > nearest_plane_distance.y)
         || (!box.is2D() && m_cell_width * 2.0 > nearest_plane_distance.z))
     {
-- 
2.43.0


From f9fe62de5ebe7390e4a1306ab102293fd6d25f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 17/65] fix: do not read the first query point of an empty
 query

---
 freud/locality/NeighborQuery.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..6b98111 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,6 +370,11 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
+        if (m_num_query_points == 0)
+        {
+            m_finished = true;
+            return;
+        }
         m_iter = this->query(m_cur_p);
     }
 
-- 
2.43.0


From bb4687b18d7d97342a9067d1d116bcef368aef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 18/65] fix: reject non-periodic boxes in CellQuery like the
 other neighbor queries

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..4451135 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From 8a7e4b206f9632b5163c4583682b0dc2eb919098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 19/65] fix: cover every grid cell within r_max exactly once in
 GaussianDensity and SphereVoxelization

---
 freud/density/GaussianDensity.cc    | 25 ++++++++++++++++++-------
 freud/density/SphereVoxelization.cc | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..9b648d2 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,10 +1,12 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 #include "Box.h"
@@ -81,10 +83,15 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the range of bins whose centers may be within r_max of a point in the given bin. A point can be
+    // anywhere in its bin, so bins that are up to half a bin further than r_max away have to be considered.
+    // Every bin is visited at most once, even when r_max reaches across the whole (periodic) box.
+    const auto bin_range = [this](int bin, float grid_size, unsigned int width) {
+        const int n_bins = static_cast<int>(width);
+        const int bin_cut = static_cast<int>(std::min(m_r_max / grid_size, static_cast<float>(n_bins))) + 1;
+        return (2 * bin_cut + 1 < n_bins) ? std::make_pair(bin - bin_cut, bin + bin_cut)
+                                          : std::make_pair(0, n_bins - 1);
+    };
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -109,9 +116,13 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 bin_z = 0;
             }
 
+            const auto [begin_x, end_x] = bin_range(bin_x, grid_size_x, m_width.x);
+            const auto [begin_y, end_y] = bin_range(bin_y, grid_size_y, m_width.y);
+            const auto [begin_z, end_z] = bin_range(bin_z, grid_size_z, m_width.z);
+
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = begin_z; k <= end_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +131,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = begin_y; j <= end_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +140,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = begin_x; i <= end_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..cdaaa30 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -1,9 +1,11 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 #include "ManagedArray.h"
@@ -77,10 +79,15 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the range of bins whose centers may be within r_max of a point in the given bin. A point can be
+    // anywhere in its bin, so bins that are up to half a bin further than r_max away have to be considered.
+    // Every bin is visited at most once, even when r_max reaches across the whole (periodic) box.
+    const auto bin_range = [this](int bin, float grid_size, unsigned int width) {
+        const int n_bins = static_cast<int>(width);
+        const int bin_cut = static_cast<int>(std::min(m_r_max / grid_size, static_cast<float>(n_bins))) + 1;
+        return (2 * bin_cut + 1 < n_bins) ? std::make_pair(bin - bin_cut, bin + bin_cut)
+                                          : std::make_pair(0, n_bins - 1);
+    };
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -94,9 +101,13 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
             // In 2D, only loop over the z=0 plane
             const int bin_z = m_box.is2D() ? 0 : int((point.z + Lz / float(2.0)) / grid_size_z);
 
+            const auto [begin_x, end_x] = bin_range(bin_x, grid_size_x, m_width.x);
+            const auto [begin_y, end_y] = bin_range(bin_y, grid_size_y, m_width.y);
+            const auto [begin_z, end_z] = bin_range(bin_z, grid_size_z, m_width.z);
+
             // Only evaluate over bins that are within the cutoff, rejecting bins
             // that are outside the box in aperiodic directions.
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = begin_z; k <= end_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -105,7 +116,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = begin_y; j <= end_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -114,7 +125,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = begin_x; i <= end_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
-- 
2.43.0


From dc4c17fc5a28b3c397cac0dbf0a845f9b57fc526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 20/65] fix: accept z-rotation quaternions of either sense in
 2D PMFTs

---
 freud/pmft.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..1d6072f 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -71,13 +71,16 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        orientations = rowan.normalize(orientations)
+        # A rotation about the z-axis has no x and y components. The sign of the
+        # z component gives the sense of the rotation.
+        if not np.allclose(orientations[..., 1:3], 0, atol=1e-5):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        orientations = 2 * np.arctan2(orientations[..., 3], orientations[..., 0])
     return orientations
 
 
-- 
2.43.0


From 5d06da9fe5308ddb07ab24632d9c72019413d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 21/65] fix: make DiffractionPattern intensities and k_vectors
 refer to the same wavevectors

---
 freud/diffraction.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..ea6a879 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -651,11 +651,14 @@ class DiffractionPattern(_Compute):
         shift_matrix = np.array([[1, 0, -roll], [0, 1, -roll], [0, 0, 1]])
 
         # Translation for [roll_shift, roll_shift]
-        # Then shift using ss
+        # Then shift using ss. The wavevector of the Fourier components (m0, m1)
+        # is 2 * pi * inv_shear.T @ (m0, m1), so that the first (second) index
+        # of the transformed image is proportional to the x (y) component of
+        # the wavevector, like in k_vectors.
         shear_matrix = np.array(
             [
-                [ss[1, 0], ss[0, 0], roll_shift],
-                [ss[1, 1], ss[0, 1], roll_shift],
+                [ss[0, 0], ss[1, 0], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
                 [0, 0, 1],
             ]
         )
@@ -804,7 +807,8 @@ class DiffractionPattern(_Compute):
     def diffraction(self):
         """
         (``output_size``, ``output_size``) :class:`numpy.ndarray`:
-            Diffraction pattern.
+            Diffraction pattern. The value at each index corresponds to the
+            wavevector at the same index of :py:attr:`k_vectors`.
         """
         return np.asarray(self._diffraction) / self._frame_counter
 
@@ -827,7 +831,9 @@ class DiffractionPattern(_Compute):
         k-vectors."""
         if not self._k_vectors_cached:
             self._k_vectors = (
-                rowan.rotate(self._view_orientation, self._k_vectors_orig)
+                rowan.rotate(
+                    rowan.conjugate(self._view_orientation), self._k_vectors_orig
+                )
                 * self._k_scale_factor
             )
             self._k_vectors_cached = True
@@ -864,7 +870,8 @@ class DiffractionPattern(_Compute):
             vmax = 0.7 * self.N_points
         norm = matplotlib.colors.LogNorm(vmin=vmin, vmax=vmax)
         cmap = matplotlib.colormaps[cmap]
-        image = cmap(norm(np.clip(self.diffraction, vmin, vmax)))
+        # The rows of the image correspond to the y axis of the view.
+        image = cmap(norm(np.clip(self.diffraction.T, vmin, vmax)))
         return (image * 255).astype(np.uint8)
 
     def plot(self, ax=None, cmap="afmhot", vmin=None, vmax=None):
@@ -892,8 +899,9 @@ class DiffractionPattern(_Compute):
             vmin = 4e-6 * self.N_points
         if vmax is None:
             vmax = 0.7 * self.N_points
+        # The rows of the image correspond to the y axis of the view.
         return freud.plot.diffraction_plot(
-            self.diffraction, self.k_values, self.N_points, ax, cmap, vmin, vmax
+            self.diffraction.T, self.k_values, self.N_points, ax, cmap, vmin, vmax
         )
 
     def _repr_png_(self):
-- 
2.43.0


From cb4b6f3fb7872d332a13b325792bcdab69c9a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 22/65] fix: require one orientation per point in
 LocalBondProjection

---
 freud/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/environment.py b/freud/environment.py
index 6f2e8c7..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -1054,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
-- 
2.43.0


From eec18ea16bdad5c688677c0faadb602a2a84cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 23/65] fix: convert and validate the orientations of
 RotationalAutocorrelation

---
 freud/order.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/order.py b/freud/order.py
index b6e014c..0ab2161 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -858,8 +858,9 @@ class RotationalAutocorrelation(_Compute):
             orientations ((:math:`N_{orientations}`, 4) :class:`numpy.ndarray`):
                 Orientations for the frame of interest.
         """
-        assert len(ref_orientations) == len(orientations), (
-            "orientations and ref_orientations must have the same shape."
+        ref_orientations = freud.util._convert_array(ref_orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(ref_orientations.shape[0], 4)
         )
         self._cpp_obj.compute(ref_orientations, orientations)
         return self
-- 
2.43.0


From 0d0941a1036009c1523f7864ff5c919f4bdd5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 24/65] fix: make NumThreads restore the number of threads
 found on entry

---
 freud/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index da7e6b3..ce5d813 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -48,12 +48,14 @@ class NumThreads:
     """
 
     def __init__(self, N=None):
-        self.restore_N = _num_threads
         self.N = N
+        # A stack, since the same context may be entered repeatedly.
+        self._restore_N = []
 
     def __enter__(self):
+        self._restore_N.append(_num_threads)
         set_num_threads(self.N)
         return self
 
     def __exit__(self, *args):
-        set_num_threads(self.restore_N)
+        set_num_threads(self._restore_N.pop())
-- 
2.43.0


From 5f72ef982d77304fc4251980c6a03d6baefa0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 25/65] fix: reject a single k value in
 StaticStructureFactorDebye instead of returning NaN

---
 freud/diffraction/StaticStructureFactorDebye.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/diffraction/StaticStructureFactorDebye.cc b/freud/diffraction/StaticStructureFactorDebye.cc
index 757bbbf..e4c3a2c 100644
--- a/freud/diffraction/StaticStructureFactorDebye.cc
+++ b/freud/diffraction/StaticStructureFactorDebye.cc
@@ -46,6 +46,11 @@ StaticStructureFactorDebye::StaticStructureFactorDebye(unsigned int bins, float
     {
         throw std::invalid_argument("StaticStructureFactorDebye requires a nonzero number of bins.");
     }
+    if (bins == 1)
+    {
+        // k_min and k_max are the first and last bin centers, so a single bin is not well defined.
+        throw std::invalid_argument("StaticStructureFactorDebye requires at least two bins.");
+    }
     if (k_max <= 0)
     {
         throw std::invalid_argument("StaticStructureFactorDebye requires k_max to be positive.");
-- 
2.43.0


From 4139e45c40302f33ff548c58433b995e647a48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 26/65] fix: accept NumPy booleans, as returned by
 Box.periodic, when setting periodicity

---
 freud/box.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 8280930..acadb21 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -568,12 +568,9 @@ class Box:  # noqa: PLW1641
 
     @periodic.setter
     def periodic(self, periodic):
-        # Allow passing a single value
-        try:
-            self._cpp_obj.setPeriodic(periodic[0], periodic[1], periodic[2])
-        except TypeError:
-            # Allow single value to be passed for all directions
-            self._cpp_obj.setPeriodic(periodic, periodic, periodic)
+        # Allow single value to be passed for all directions
+        x, y, z = np.broadcast_to(periodic, (3,))
+        self._cpp_obj.setPeriodic(bool(x), bool(y), bool(z))
 
     @property
     def periodic_x(self):
@@ -582,7 +579,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_x.setter
     def periodic_x(self, periodic):
-        self._cpp_obj.setPeriodicX(periodic)
+        self._cpp_obj.setPeriodicX(bool(periodic))
 
     @property
     def periodic_y(self):
@@ -591,7 +588,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_y.setter
     def periodic_y(self, periodic):
-        self._cpp_obj.setPeriodicY(periodic)
+        self._cpp_obj.setPeriodicY(bool(periodic))
 
     @property
     def periodic_z(self):
@@ -600,7 +597,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_z.setter
     def periodic_z(self, periodic):
-        self._cpp_obj.setPeriodicZ(periodic)
+        self._cpp_obj.setPeriodicZ(bool(periodic))
 
     def to_dict(self):
         r"""Return box as dictionary.
-- 
2.43.0


From 3aa0bc5c5893ac9fd715ba303b12776e3bb13e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 27/65] fix: keep the periodicity when scaling or converting a
 freud box

---
 freud/box.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index acadb21..bee4865 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -696,7 +696,7 @@ class Box:  # noqa: PLW1641
 
     def __mul__(self, scale):
         if scale > 0:
-            return self.__class__(
+            box = self.__class__(
                 Lx=self.Lx * scale,
                 Ly=self.Ly * scale,
                 Lz=self.Lz * scale,
@@ -705,6 +705,8 @@ class Box:  # noqa: PLW1641
                 yz=self.yz,
                 is2D=self.is2D,
             )
+            box.periodic = self.periodic
+            return box
         msg = "Box can only be multiplied by positive values."
         raise ValueError(msg)
 
@@ -837,7 +839,10 @@ class Box:  # noqa: PLW1641
         if dimensions is None:
             dimensions = 2 if Lz == 0 else 3
         is2D = dimensions == 2
-        return cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        new_box = cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        if isinstance(box, Box):
+            new_box.periodic = box.periodic
+        return new_box
 
     @classmethod
     def from_matrix(cls, box_matrix, dimensions=None):
-- 
2.43.0


From 7cd1ffeaa227302de4ce4bb066a0dd849caded60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 28/65] fix: give every CellQuery query its own cell list so
 that live iterators stay valid

---
 freud/locality/CellQuery.cc | 34 ++++++++++++++++++++++------------
 freud/locality/CellQuery.h  |  1 -
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 4451135..9eaa591 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -13,6 +13,22 @@
 #include <vector>
 
 namespace freud::locality {
+namespace {
+//! Iterator over all query points that owns the cell list it reads.
+class CellQueryIterator : public NeighborQueryIterator
+{
+public:
+    CellQueryIterator(std::shared_ptr<const CellQuery> cell_list, const vec3<float>* query_points,
+                      unsigned int n_query_points, const QueryArgs& query_args)
+        : NeighborQueryIterator(cell_list.get(), query_points, n_query_points, query_args),
+          m_cell_list(std::move(cell_list))
+    {}
+
+private:
+    std::shared_ptr<const CellQuery> m_cell_list; //!< Cell list of this query
+};
+} // namespace
+
 //! Perform a query based on a set of query parameters.
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
@@ -25,19 +41,13 @@ CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, Q
     }
 
     this->validateQueryArgs(query_args);
-    // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
-    // called in a parallel loop. This  never occurs as of writing this method,
-    // as it is the NeighborQueryIterator which  is operated on in parallel --
-    // although confusingly, that method is also named  `query`. For stronger
-    // guarantees, we could use a mutex here.
-
-    // Build the grid if needed
-    if (!m_built)
-    {
-        this->buildGrid(query_args.r_max);
-    }
+    // The cell list depends on r_max, so every query gets its own one. It must not be
+    // shared with other queries because they may still be in the process of iterating.
+    auto cell_list = std::make_shared<CellQuery>(m_box, m_points, m_n_points);
+    cell_list->buildGrid(query_args.r_max);
 
-    return std::make_shared<NeighborQueryIterator>(this, query_points, n_query_points, query_args);
+    return std::make_shared<CellQueryIterator>(std::move(cell_list), query_points, n_query_points,
+                                               query_args);
 }
 
 std::shared_ptr<NeighborQueryPerPointIterator>
diff --git a/freud/locality/CellQuery.h b/freud/locality/CellQuery.h
index 721a6de..5f1747b 100644
--- a/freud/locality/CellQuery.h
+++ b/freud/locality/CellQuery.h
@@ -304,7 +304,6 @@ private:
     mutable unsigned int m_n_total = 0;  //!< Total number of particles, including ghosts
     mutable unsigned int m_n_images = 0; //!< Total number of periodic images
 
-    mutable bool m_built = false;     //!< Whether the grid has been built.
     mutable float m_grid_r_cut = 0.0; //!< Current grid width to check if rebuild is necessary
 
     //! Place particles into sorted linear buffer using cell starts and counts.
-- 
2.43.0


From d4718054bb4a1179e4e7b1cdcf337dc7181ff1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 29/65] fix: RDF allocates one shell volume per bin

The 2D and 3D shell volume arrays were allocated with bins^2 and bins^3
elements although only the first bins elements are used, so that an RDF with
a few thousand bins needed tens of gigabytes of memory.
---
 freud/density/RDF.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index b072d7d..2c20c85 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -49,8 +49,8 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_histogram.shape());
 
     // Precompute the cell volumes to speed up later calculations.
-    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins});
-    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins, bins});
+    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
+    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
     const float volume_prefactor = (float(4.0) / float(3.0)) * M_PI;
     std::vector<float> bin_boundaries = getBinEdges()[0];
 
-- 
2.43.0


From 77abee3050bc7c86cbcf264302e02b67ac2c7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 30/65] fix: CorrelationFunction requires one value per query
 point

Without query_values, the values of the points are used for the query points,
but were read out of bounds when there are more query points than points.
---
 freud/density.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..fb92bb1 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -119,12 +119,11 @@ class CorrelationFunction(_SpatialHistogram1D):
         )
         if query_values is None:
             query_values = values
-        else:
-            query_values = freud.util._convert_array(
-                query_values,
-                shape=(l_query_points.shape[0],),
-                dtype=np.complex128,
-            )
+        query_values = freud.util._convert_array(
+            query_values,
+            shape=(l_query_points.shape[0],),
+            dtype=np.complex128,
+        )
         self._cpp_obj.accumulate(
             nq._cpp_obj,
             values,
-- 
2.43.0


From 4c2a3a50ea090cad833de8e4056111ebd3eccb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 31/65] fix: bounds of CorrelationFunction and BondOrder, bins
 of CorrelationFunction

The bindings lacked the method behind the bounds property and the bins
property called a method that does not exist.
---
 freud/density.py                            | 2 +-
 freud/density/export-CorrelationFunction.cc | 2 +-
 freud/environment/export-BondOrder.cc       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index fb92bb1..320e8a2 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -144,7 +144,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self._cpp_obj.getAxisSizes()[0]
 
     def __repr__(self):
         return (
diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..a6ad820 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -44,7 +44,7 @@ namespace detail {
 
 void export_CorrelationFunction(nanobind::module_& m)
 {
-    nanobind::class_<CorrelationFunction>(m, "CorrelationFunction")
+    nanobind::class_<CorrelationFunction, locality::BondHistogramCompute>(m, "CorrelationFunction")
         .def(nanobind::init<unsigned int, float>(), nanobind::arg("bins"), nanobind::arg("r_max"))
         .def("reset", &CorrelationFunction::reset)
         .def("accumulate", &wrap::accumulateCF, nanobind::arg("neighbor_query"), nanobind::arg("values"),
diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..ec5dd14 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -59,7 +59,7 @@ void export_BondOrder(nb::module_& module)
         .value("oocd", BondOrderMode::oocd)
         .export_values();
 
-    nb::class_<BondOrder>(module, "BondOrder")
+    nb::class_<BondOrder, locality::BondHistogramCompute>(module, "BondOrder")
         .def(nb::init<unsigned int, unsigned int, BondOrderMode>())
         .def("getBondOrder", &BondOrder::getBondOrder)
         .def("getBinCounts", &BondOrder::getBinCounts)
-- 
2.43.0


From 7584055664ca5a040c5052a3e17496a2e25dec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 32/65] fix: PMFTR12 and PMFTXYT require one orientation per
 query point

Without query_orientations, the orientations of the points are used for the
query points, but were read out of bounds when there are more query points
than points.
---
 freud/pmft.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 1d6072f..fd79b77 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -200,7 +200,9 @@ class PMFTR12(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
@@ -302,7 +304,9 @@ class PMFTXYT(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
-- 
2.43.0


From 0713bab3edfa80b8204345885e1dc389bea83519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 33/65] fix: bin_counts of PMFTXY keeps axes with a single bin

The array was squeezed, so that it did not match the shape of the histogram
and of the pmft when an axis has one bin.
---
 freud/pmft.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index fd79b77..a8b23e6 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -419,14 +419,6 @@ class PMFTXY(_PMFT):
         )
         return self
 
-    @_Compute._computed_property
-    def bin_counts(self):
-        """:class:`numpy.ndarray`: The bin counts in the histogram."""
-        # Currently the parent function returns a 3D array that must be
-        # squeezed due to the internal choices in the histogramming; this will
-        # be fixed in future changes.
-        return np.squeeze(super().bin_counts)
-
     def __repr__(self):
         bounds = self.bounds
         return ("freud.pmft.{cls}(x_max={x_max}, y_max={y_max}, bins=({bins}))").format(
-- 
2.43.0


From 90c2b7680fc1d6dc415f9b980e2c037b1637a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 34/65] fix: BondOrder counts bonds along the poles

The polar angle of a bond along -z equals the excluded upper bound of the
axis, and rounding could push the cosine of its angle out of [-1, 1]; such
bonds were dropped.
---
 freud/environment/BondOrder.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..0f1f0ed 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -143,7 +144,12 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // Bonds along the poles belong to the outermost bins, so
+                          // the cosine must not leave [-1, 1] by rounding and phi
+                          // must not reach the excluded upper bound of the axis.
+                          const float cos_phi = std::clamp(v.z / std::sqrt(dot(v, v)), -1.0F, 1.0F);
+                          const float phi
+                              = std::min(std::acos(cos_phi), std::nextafter(float(M_PI), 0.0F)); // 0..Pi
 
                           m_local_histograms(theta, phi);
                       });
-- 
2.43.0


From 5bbfb470a9e80be55bf102a1e6354789b6a1ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 35/65] fix: LocalDensity does not count neighbors beyond the
 r_max sphere

---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From a3923130608a8072b0cfc75c0ef6919d75aa9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 36/65] fix: keep axes of a single cell in 2D GaussianDensity
 and SphereVoxelization grids

---
 freud/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index 320e8a2..3186b3d 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -264,7 +264,7 @@ class GaussianDensity(_Compute):
         """(:math:`w_x`, :math:`w_y`, :math:`w_z`) :class:`numpy.ndarray`: The
         grid with the Gaussian density contributions from each point."""
         if self.box.is2D:
-            return np.squeeze(self._cpp_obj.density.toNumpyArray())
+            return np.squeeze(self._cpp_obj.density.toNumpyArray(), axis=2)
         return self._cpp_obj.density.toNumpyArray()
 
     @property
@@ -373,7 +373,7 @@ class SphereVoxelization(_Compute):
         voxel grid indicating overlap with the computed spheres."""
         data = self._cpp_obj.voxels.toNumpyArray()
         if self.box.is2D:
-            return np.squeeze(data)
+            return np.squeeze(data, axis=2)
         return data
 
     @property
-- 
2.43.0


From 2fe30d686a6d6f676a124ed0549643b7ce3f2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 37/65] fix: project the rotated box vectors in
 DiffractionPattern

rowan.rotate acts on rows while the box vectors are the columns of the box
matrix, so that the Fourier components belonged to the box rotated the other
way and Bragg peaks were spread over several components in rotated views.
---
 freud/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index ea6a879..0e54b65 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -589,7 +589,7 @@ class DiffractionPattern(_Compute):
                 Inverse shear matrix.
         """
         # Rotate the box matrix by the view orientation.
-        box_matrix = rowan.rotate(view_orientation, box.to_matrix())
+        box_matrix = rowan.rotate(view_orientation, box.to_matrix().T).T
 
         # Compute normals for each box face.
         # The area of the face is the length of the vector.
-- 
2.43.0


From 550c96c6081fda60d36401e04dbeb5e76db8cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 38/65] fix: seed each Cubatic replicate by its index

The random generator was seeded with the start of the chunk of replicates a
thread works on, so that results depended on the number of threads.
---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..834e67c 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create a replicate-specific rng, so that the result does not
+            // depend on how replicates are distributed over threads
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 38cfbab1c62980057432df8dca0eb4185699265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 39/65] fix: compute the windowed MSD from displacements in
 double precision

Squares and Fourier transforms of single-precision coordinates far from the
origin cancelled catastrophically, giving e.g. negative displacements.
---
 freud/msd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/msd.py b/freud/msd.py
index 21b4aed..9108ffc 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -212,6 +212,10 @@ class MSD(_Compute):
             positions = unwrapped_positions
 
         if self.mode == "window":
+            # Displacements from the first frame in double precision avoid
+            # the cancellation of large squared coordinates
+            positions = positions.astype(np.float64) - positions[[0], :, :]
+
             # First compute the first term r^2(k+m) - r^2(k)
             N = positions.shape[0]
             D = np.square(positions).sum(axis=2)
-- 
2.43.0


From 54371b49224731b8bacea15e106a8ee27bf01192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 40/65] fix: center generated systems of tilted unit cells
 along lattice vectors

The shift for even numbers of replicas took the components of the corner of
the box, which are no lattice vectors if the box is tilted.
---
 freud/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/data.py b/freud/data.py
index 998a000..79d80ea 100644
--- a/freud/data.py
+++ b/freud/data.py
@@ -136,9 +136,9 @@ class UnitCell:
             box = self.box * scale
             positions = self.box.make_absolute(self.basis_positions)
 
-        # Even numbers of repeats shift the box by L/2
+        # Even numbers of repeats shift the box by half of the lattice vector
         shift_vec = (np.array([nx, ny, nz]) + 1) % 2
-        positions += shift_vec * self.box.make_absolute([1, 1, 1])
+        positions += self.box.make_absolute(0.5 * (shift_vec + 1))
         positions *= scale
         positions = box.wrap(positions)
 
-- 
2.43.0


From 3bd98eca35946a61d654fe4b8408a0d84abb4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 41/65] fix: accept any system in PeriodicBuffer and Interface

Both document that they take any valid argument of NeighborQuery.from_system,
but unpacked the system as a pair of a box and points.
---
 freud/locality.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index 3f8c8bc..abe958b 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -784,11 +784,8 @@ def _make_default_nq(neighbor_query):
     side, making the _RawPoints object is just so that compute functions on the
     C++ side don't require overloads to work.
 
-    Supported types for :code:`neighbor_query` include:
-    - :class:`~.locality.AABBQuery`
-    - :class:`~.locality.LinkCell`
-    - A tuple of :code:`(box, points)` where :code:`box` is a
-      :class:`~.box.Box` and :code:`points` is a :class:`numpy.ndarray`.
+    Supported types for :code:`neighbor_query` are those of
+    :meth:`~.locality.NeighborQuery.from_system`.
 
     Args:
         neighbor_query (:class:`~.locality.NeighborQuery` - like object):
@@ -801,11 +798,7 @@ def _make_default_nq(neighbor_query):
             :class:`_RawPoints` built from an inferred :code:`box` and
             :code:`points`.
     """
-    if not isinstance(neighbor_query, NeighborQuery):
-        nq = _RawPoints(*neighbor_query)
-    else:
-        nq = neighbor_query
-    return nq
+    return NeighborQuery.from_system(neighbor_query)
 
 
 def _make_default_nlist(system, neighbors, query_points=None):
-- 
2.43.0


From ac5be3a5701e21a24a8eeced5f23e404cdb645e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 42/65] fix: reject neighbor lists of other sizes in Interface

A neighbor list for another number of points or query points was accepted and
gave indices of particles that do not exist.
---
 freud/locality.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index abe958b..a673c6a 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -823,12 +823,19 @@ def _make_default_nlist(system, neighbors, query_points=None):
         :class:`freud.locality.NeighborList`:
             The neighbor list.
     """
+    nq = _make_default_nq(system)
+    qp = query_points if query_points is not None else nq.points
+    qp = freud.util._convert_array(np.atleast_2d(qp), shape=(None, 3))
     if type(neighbors) is NeighborList:
+        if (neighbors.num_query_points, neighbors.num_points) != (
+            len(qp),
+            len(nq.points),
+        ):
+            msg = "NeighborList found inconsistent array sizes."
+            raise RuntimeError(msg)
         return neighbors
     query_args = neighbors.copy()
     query_args.setdefault("exclude_ii", query_points is None)
-    nq = _make_default_nq(system)
-    qp = query_points if query_points is not None else nq.points
     return nq.query(qp, query_args).toNeighborList()
 
 
-- 
2.43.0


From b0b92546d843f24f4657216ca51c65bad6ec0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 43/65] fix: accept read-only arrays

The bindings take writable arrays, so that single-precision arrays that are
read-only (memory-mapped or broadcast ones, for example) were rejected with a
TypeError, although they are only read.
---
 freud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/util.py b/freud/util.py
index 6b71f45..fb5a1c0 100644
--- a/freud/util.py
+++ b/freud/util.py
@@ -84,7 +84,7 @@ class _Compute:
 
 
 def _convert_array(
-    array, shape=None, dtype=np.float32, requirements=("C",), allow_copy=True
+    array, shape=None, dtype=np.float32, requirements=("C", "W"), allow_copy=True
 ):
     """Function which takes a given array, checks the dimensions and shape,
     and converts to a supplied dtype.
-- 
2.43.0


From cf09ce7ff25848fcf337f0f524593766293f5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 44/65] fix: read the lattice vectors of MDAnalysis time steps
 from the rows

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index a673c6a..30bbf11 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # The rows of the matrix of MDAnalysis are the lattice vectors.
+            system = (np.asarray(system.triclinic_dimensions).T, system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From eb1fb363c59d6002b0b69aba8fff72fa76e73200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 45/65] fix: end LinkCell ball queries once every cell has been
 searched

The walk over cell shells stopped only when a shell was farther than r_max,
so a query with a huge or infinite r_max never returned.
---
 freud/locality/LinkCell.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 5955a36..626fc5c 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -545,11 +545,12 @@ NeighborBond LinkCellQueryBallIterator::next()
         while (true)
         {
             // Determine the next neighbor cell to consider. We're done if we
-            // reach a new shell and the closest point of approach to the new
-            // shell is greater than our r_max.
+            // have searched every cell, or reach a new shell and the closest
+            // point of approach to the new shell is greater than our r_max.
             ++m_neigh_cell_iter;
 
-            if (static_cast<float>(m_neigh_cell_iter.getRange() - m_extra_search_width)
+            if (m_searched_cells.size() >= m_linkcell->getNumCells()
+                || static_cast<float>(m_neigh_cell_iter.getRange() - m_extra_search_width)
                     * m_linkcell->getCellWidth()
                 > m_r_max)
             {
-- 
2.43.0


From e688aa7a47c63349815c43cdcc9a93f98d87a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 46/65] fix: reject NaN and infinite buffers in PeriodicBuffer

A NaN buffer passed the check for negative values and its conversion to a
number of images was undefined.
---
 freud/locality/PeriodicBuffer.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/freud/locality/PeriodicBuffer.cc b/freud/locality/PeriodicBuffer.cc
index aeacc94..a486ee6 100644
--- a/freud/locality/PeriodicBuffer.cc
+++ b/freud/locality/PeriodicBuffer.cc
@@ -23,17 +23,17 @@ void PeriodicBuffer::compute(const std::shared_ptr<NeighborQuery>& neighbor_quer
 {
     vec3<float> const buff(buff_vec[0], buff_vec[1], buff_vec[2]);
     m_box = neighbor_query->getBox();
-    if (buff.x < 0)
+    if (!(buff.x >= 0) || std::isinf(buff.x))
     {
-        throw std::invalid_argument("Buffer x distance must be non-negative.");
+        throw std::invalid_argument("Buffer x distance must be non-negative and finite.");
     }
-    if (buff.y < 0)
+    if (!(buff.y >= 0) || std::isinf(buff.y))
     {
-        throw std::invalid_argument("Buffer y distance must be non-negative.");
+        throw std::invalid_argument("Buffer y distance must be non-negative and finite.");
     }
-    if (buff.z < 0)
+    if (!(buff.z >= 0) || std::isinf(buff.z))
     {
-        throw std::invalid_argument("Buffer z distance must be non-negative.");
+        throw std::invalid_argument("Buffer z distance must be non-negative and finite.");
     }
 
     // Get the box dimensions
-- 
2.43.0


From f4dd02b1f827cf5272c1334356156e777937718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 47/65] fix: reject an empty set of equivalent orientations

AngularSeparation and LocalBondProjection read the first element.
---
 freud/environment.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/freud/environment.py b/freud/environment.py
index 130ca21..ace207d 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -109,6 +109,9 @@ class AngularSeparationNeighbor(_PairCompute):
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
         )
+        if len(equiv_orientations) == 0:
+            msg = "At least one equivalent orientation (the identity) must be given."
+            raise ValueError(msg)
 
         self._cpp_obj.compute(
             nq._cpp_obj,
@@ -178,6 +181,9 @@ class AngularSeparationGlobal(_Compute):
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
         )
+        if len(equiv_orientations) == 0:
+            msg = "At least one equivalent orientation (the identity) must be given."
+            raise ValueError(msg)
 
         self._cpp_obj.compute(global_orientations, orientations, equiv_orientations)
         return self
@@ -1061,6 +1067,9 @@ class LocalBondProjection(_PairCompute):
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
         )
+        if len(equiv_orientations) == 0:
+            msg = "At least one equivalent orientation (the identity) must be given."
+            raise ValueError(msg)
         proj_vecs = freud.util._convert_array(proj_vecs, shape=(None, 3))
 
         self._cpp_obj.compute(
-- 
2.43.0


From 8a98dce551dc2a7a786159eff351c755fd53796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 48/65] fix: reject nearest neighbor queries for zero neighbors

LinkCell read the last of zero neighbors.
---
 freud/locality/NeighborQuery.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index 6b98111..6913c1b 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -216,6 +216,10 @@ protected:
                 throw std::runtime_error("You must set num_neighbors in the query arguments when performing "
                                          "number of neighbor queries.");
             }
+            if (args.num_neighbors == 0)
+            {
+                throw std::runtime_error("The num_neighbors query argument must be positive.");
+            }
             if (args.r_max == DEFAULT_R_MAX)
             {
                 args.r_max = std::numeric_limits<float>::infinity();
-- 
2.43.0


From ac10a5903f309327d5eee30f67e8abadb3a471b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 49/65] fix: reject NaN scale and r_guess in nearest neighbor
 queries

The search radius became NaN and the search never ended.
---
 freud/locality/NeighborQuery.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index 6913c1b..38a4866 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -242,7 +242,8 @@ protected:
         {
             args.scale = float(1.1);
         }
-        else if (args.scale <= float(1.0))
+        // Written so that NaN is rejected, too: the search radius must grow.
+        else if (!(args.scale > float(1.0)))
         {
             throw std::runtime_error("The scale query argument must be greater than 1.");
         }
@@ -270,6 +271,10 @@ protected:
 
             args.r_guess = std::min(r_guess, min_plane_distance / 2.0F);
         }
+        else if (std::isnan(args.r_guess))
+        {
+            throw std::runtime_error("The r_guess query argument must be a number.");
+        }
         args.r_guess = std::min(args.r_guess, args.r_max);
     }
 
-- 
2.43.0


From 742222f64c5c84c061b94b63f495304538c9ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 50/65] fix: use the bond vectors of the neighbor list in
 FilterRAD

---
 freud/locality/FilterRAD.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index efe8b20..c25548b 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -43,8 +43,6 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     std::vector<unsigned int> unfilled_qps(sorted_nlist.getNumQueryPoints(),
                                            std::numeric_limits<unsigned int>::max());
 
-    const auto& points = nq->getPoints();
-    const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
     const auto& sorted_vecs = *sorted_nlist.getVectors();
@@ -68,14 +66,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(query_points[i] - points[first_neighbor_idx]);
+                const auto v1 = sorted_vecs(first_idx + j);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(query_points[i] - points[second_neighbor_idx]);
+                    const auto v2 = sorted_vecs(first_idx + k);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
-- 
2.43.0


From 0c94027bedea99895e89947644f10f92ec00a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 51/65] fix: use the bond vectors of the neighbor list in
 Steinhardt

---
 freud/order/Steinhardt.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/order/Steinhardt.cc b/freud/order/Steinhardt.cc
index c03ba47..65001d1 100644
--- a/freud/order/Steinhardt.cc
+++ b/freud/order/Steinhardt.cc
@@ -137,7 +137,6 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
         points, points->getPoints(), m_Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
-            const vec3<float> ref((*points)[i]);
             // Construct PointSPHEvaluator outside loop since the construction is costly.
             auto max_l = *std::max_element(m_ls.begin(), m_ls.end());
             fsph::PointSPHEvaluator<float> sph_eval(max_l);
@@ -152,7 +151,7 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
-                const vec3<float> delta = points->getBox().wrap((*points)[nb.getPointIdx()] - ref);
+                const vec3<float> delta(nb.getVector());
                 const float weight(m_weighted ? nb.getWeight() : float(1.0));
 
                 // phi is usually in range 0..2Pi, but
-- 
2.43.0


From b4a581249cde438a85943a00f5a6ac694b871af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 52/65] fix: return the plain ql from Steinhardt.ql when
 averaging

---
 freud/order/Steinhardt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/freud/order/Steinhardt.h b/freud/order/Steinhardt.h
index 44367c9..4c0d7af 100644
--- a/freud/order/Steinhardt.h
+++ b/freud/order/Steinhardt.h
@@ -100,16 +100,16 @@ public:
         {
             return m_wli;
         }
-        return getQl();
+        if (m_average)
+        {
+            return m_qliAve;
+        }
+        return m_qli;
     }
 
     //! Get the last calculated ql for each l
     const std::shared_ptr<util::ManagedArray<float>>& getQl() const
     {
-        if (m_average)
-        {
-            return m_qliAve;
-        }
         return m_qli;
     }
 
-- 
2.43.0


From eaf1783d328de1103a0597f246908b6d238f6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:12 +0000
Subject: [PATCH 53/65] fix: compute local descriptors for every query point

---
 freud/environment.py                  | 8 ++++----
 freud/environment/LocalDescriptors.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index ace207d..a38d1bf 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -457,9 +457,9 @@ class LocalDescriptors(_PairCompute):
                 Query points used to calculate the correlation function.  Uses
                 the system's points if :code:`None` (Default
                 value = :code:`None`).
-            orientations ((:math:`N_{points}`, 4) :class:`numpy.ndarray`):
-                Orientations associated with system points that are used to
-                calculate bonds.
+            orientations ((:math:`N_{query\_points}`, 4) :class:`numpy.ndarray`):
+                Orientations associated with the query points that are used
+                to rotate their bonds.
             neighbors (:class:`freud.locality.NeighborList` or dict, optional):
                 Either a :class:`NeighborList <freud.locality.NeighborList>` of
                 neighbor pairs to use in the calculation, or a dictionary of
@@ -485,7 +485,7 @@ class LocalDescriptors(_PairCompute):
                 raise RuntimeError(msg)
 
             orientations = freud.util._convert_array(
-                orientations, shape=(nq.points.shape[0], 4)
+                orientations, shape=(num_query_points, 4)
             )
 
         self._cpp_obj.compute(
diff --git a/freud/environment/LocalDescriptors.cc b/freud/environment/LocalDescriptors.cc
index f37048d..b19e919 100644
--- a/freud/environment/LocalDescriptors.cc
+++ b/freud/environment/LocalDescriptors.cc
@@ -48,7 +48,7 @@ void LocalDescriptors::compute(const std::shared_ptr<locality::NeighborQuery>& n
     m_sphArray = std::make_shared<util::ManagedArray<std::complex<float>>>(
         std::vector<size_t> {m_nlist->getNumBonds(), getSphWidth()});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, m_nlist->getNumQueryPoints(), [&](size_t begin, size_t end) {
         fsph::PointSPHEvaluator<float> sph_eval(m_l_max);
 
         for (size_t i = begin; i < end; ++i)
-- 
2.43.0


From fa8885d4f52381c69dd1426f55b3cb83139592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 54/65] fix: do not register environments without vectors

---
 freud/environment/MatchEnv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 153a9cd..9ccbb61 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -286,7 +286,8 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> isSimilar(Environme
 
     // If the vector sets do not have equal numbers of vectors, just return
     // an empty map since the 1-1 bimapping will be too weird in this case.
-    if (e1.vecs.size() != e2.vecs.size())
+    // Environments without vectors cannot be registered and match nothing.
+    if (e1.vecs.size() != e2.vecs.size() || e1.vecs.empty())
     {
         return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);
     }
@@ -420,8 +421,9 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> minimizeRMSD(Enviro
 
     // If the vector sets do not have equal numbers of vectors, force the map
     // to be empty since it can never be 1-1.
+    // The same holds for environments without vectors, which cannot be registered.
     // Return the empty vec_map and the identity matrix, and minRMSD = -1.
-    if (e1.vecs.size() != e2.vecs.size())
+    if (e1.vecs.size() != e2.vecs.size() || e1.vecs.empty())
     {
         min_rmsd = -1.0;
         return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);
-- 
2.43.0


From 4a04b29f9fde8d4f4f2f09486da594c12c7c8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 55/65] fix: discard the point environments of previous
 computes

---
 freud/environment/MatchEnv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 9ccbb61..ea84094 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -600,6 +600,7 @@ unsigned int EnvironmentCluster::populateEnv(EnvDisjointSet dj)
     unsigned int label_ind;
     unsigned int cur_set = 0;
     unsigned int particle_ind = 0;
+    m_point_environments.clear();
     for (unsigned int i = 0; i < dj.s.size(); i++)
     {
         // only count this if the environment is physical
@@ -691,6 +692,7 @@ void EnvironmentMotifMatch::compute(const std::shared_ptr<freud::locality::Neigh
 
     m_matches = std::make_shared<util::ManagedArray<char>>(std::vector<size_t> {Np});
     // m_matches.prepare(Np);
+    m_point_environments.clear();
 
     // loop through the particles and add their environments to the set
     // take care, here: set things up s.t. the env_ind of every environment
@@ -765,6 +767,7 @@ void EnvironmentRMSDMinimizer::compute(const std::shared_ptr<freud::locality::Ne
     const size_t num_bonds(nlist->getNumBonds());
     m_rmsds = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {Np});
     // m_rmsds.prepare(Np);
+    m_point_environments.clear();
 
     // loop through the particles and add their environments to the set
     // take care, here: set things up s.t. the env_ind of every environment
-- 
2.43.0


From d85892ab09f560945de9e1c0171e017fdf3f27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 56/65] fix: sample all k vectors of tilted boxes in
 StaticStructureFactorDirect

---
 .../StaticStructureFactorDirect.cc            | 47 ++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 4f21037..8580c79 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -244,10 +244,21 @@ std::pair<unsigned int, unsigned int>
 evaluate_quadratic_equation(float coef_a, float coef_b, float coef_c_min, float coef_c_max, unsigned int N_kz)
 {
     const auto b_over_2a = coef_b / (2 * coef_a);
-    const auto kz_min = static_cast<unsigned int>(
-        std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
-    const auto kz_max = static_cast<unsigned int>(
-        std::ceil(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_max / coef_a)));
+    const auto discriminant_max = b_over_2a * b_over_2a - coef_c_max / coef_a;
+    const auto root_max = -b_over_2a + std::sqrt(std::max(discriminant_max, 0.0F));
+    if (discriminant_max < 0 || root_max < 0)
+    {
+        // No k vector with a non-negative index is short enough.
+        return {0, 0};
+    }
+    unsigned int kz_min = 0;
+    if (coef_c_min < 0)
+    {
+        // The k vectors below the (only) non-negative root are shorter than k_min.
+        kz_min = static_cast<unsigned int>(
+            std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
+    }
+    const auto kz_max = static_cast<unsigned int>(std::ceil(root_max));
     return {kz_min, std::min(kz_max, N_kz)};
 }
 
@@ -299,8 +310,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         // Above the pruning distance, the grid of k points is sampled isotropically
         // at a lower density.
         const auto q_prune_distance = get_prune_distance2D(num_sampled_k_points, q_max, q_area);
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
+        // The index along a reciprocal vector is the dot product with its box vector.
+        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(0).norm()));
+        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(1).norm()));
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), 0.0);
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), 0.0);
         // This is a 2D loop but we parallelize in 1D because we only need to seed
@@ -317,9 +329,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 const auto k_vec_x = static_cast<float>(kx) * bx;
 
                 // Solve the quadratic equation for kz to limit which kz values we must sample:
-                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 - 2 ky (k_vec_x \cdot by) <= k_max^2
-                // 0 <= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
-                // 0 >= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
+                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 + 2 ky (k_vec_x \cdot by) <= k_max^2
+                // 0 <= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
+                // 0 >= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
                 // This step improves performance significantly when k_min > 0
                 // by eliminating a large portion of the search space. Likewise,
                 // it eliminates the portion of search space outside a sphere
@@ -327,7 +339,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 // ensure that we don't accidentally throw out valid k points in
                 // the range (k_min, k_max) due to rounding error.
                 const auto coef_a = dot(by, by);
-                const auto coef_b = -2 * dot(k_vec_x, by);
+                const auto coef_b = 2 * dot(k_vec_x, by);
                 const auto coef_c_min = dot(k_vec_x, k_vec_x) - k_min * k_min;
                 const auto coef_c_max = dot(k_vec_x, k_vec_x) - k_max * k_max;
                 auto [ky_min, ky_max]
@@ -366,9 +378,10 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), B(0, 2));
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), B(1, 2));
         const auto bz = freud::constants::TWO_PI * vec3<float>(B(2, 0), B(2, 1), B(2, 2));
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
-        const auto N_kz = static_cast<unsigned int>(std::ceil(q_max / dq_z));
+        // The index along a reciprocal vector is the dot product with its box vector.
+        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(0).norm()));
+        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(1).norm()));
+        const auto N_kz = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(2).norm()));
         const auto q_prune_distance_sq = q_prune_distance * q_prune_distance;
         // This is a 3D loop but we parallelize in 1D because we only need to seed
         // the random number generators once per block and there is no benefit of
@@ -386,9 +399,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 {
                     const auto k_vec_xy = k_vec_x + static_cast<float>(ky) * by;
                     // Solve the quadratic equation for kz to limit which kz values we must sample:
-                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 - 2 kz (k_vec_xy \cdot bz) <= k_max^2
-                    // 0 <= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
-                    // 0 >= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
+                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 + 2 kz (k_vec_xy \cdot bz) <= k_max^2
+                    // 0 <= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
+                    // 0 >= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
                     // This step improves performance significantly when k_min > 0
                     // by eliminating a large portion of the search space. Likewise,
                     // it eliminates the portion of search space outside a sphere
@@ -396,7 +409,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                     // ensure that we don't accidentally throw out valid k points in
                     // the range (k_min, k_max) due to rounding error.
                     const auto coef_a = dot(bz, bz);
-                    const auto coef_b = -2 * dot(k_vec_xy, bz);
+                    const auto coef_b = 2 * dot(k_vec_xy, bz);
                     const auto coef_c_min = dot(k_vec_xy, k_vec_xy) - k_min * k_min;
                     const auto coef_c_max = dot(k_vec_xy, k_vec_xy) - k_max * k_max;
                     auto [kz_min, kz_max]
-- 
2.43.0


From 75c3a0790ec2baa4c8af99d61232aa8670023e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 57/65] fix: print the given k range of
 StaticStructureFactorDebye

---
 freud/diffraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 0e54b65..42f186b 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -142,6 +142,8 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
         self._cpp_obj = freud._diffraction.StaticStructureFactorDebye(
             num_k_values, k_max, k_min
         )
+        # The k values are rounded, so that they do not tell the given range.
+        self._k_range = (k_min, k_max)
 
     @property
     def num_k_values(self):
@@ -250,7 +252,7 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
     def __repr__(self):
         return (
             f"freud.diffraction.{type(self).__name__}(num_k_values={self.num_k_values},"
-            f" k_max={self.k_max}, k_min={self.k_min})"
+            f" k_max={self._k_range[1]}, k_min={self._k_range[0]})"
         )
 
     def plot(self, ax=None, **kwargs):
-- 
2.43.0


From 9df5eacc838f695a74c5cc49e6aec518464ed8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:02 +0000
Subject: [PATCH 58/65] fix: print the normalization mode of an RDF

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index 3186b3d..4f9cc07 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -663,7 +663,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode='{self.mode}')"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From 303dd9f57ed153b5baf29e5529ab3407efd84f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 59/65] fix: plot the first bin index of PMFTXY along x

---
 freud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..bbd5e0f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -361,7 +361,7 @@ def pmft_plot(pmft, ax=None, cmap="viridis"):
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
 
     im = ax.imshow(
-        np.flipud(pmft_arr),
+        np.flipud(pmft_arr.T),
         extent=[xlims[0], xlims[1], ylims[0], ylims[1]],
         interpolation="nearest",
         cmap=cmap,
-- 
2.43.0


From f74ab9f057ee004f533af6e32d77b16e480b64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 60/65] fix: plot diffraction patterns with k_y pointing up

---
 freud/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freud/plot.py b/freud/plot.py
index bbd5e0f..a23f15a 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -554,6 +554,7 @@ def diffraction_plot(
         cmap=cmap,
         norm=norm,
         extent=extent,
+        origin="lower",
     )
     ax_divider = make_axes_locatable(ax)
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
-- 
2.43.0


From 165e1ef3a94d07cccc35dc8aef13c426da8c9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 61/65] fix: pass the arguments of box and system plots on to
 matplotlib

---
 freud/box.py      | 9 +--------
 freud/locality.py | 2 +-
 freud/plot.py     | 4 ++--
 3 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index bee4865..9423087 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -737,14 +737,7 @@ class Box:  # noqa: PLW1641
             raise ImportError(msg_mpl)
         if image is None:
             image = [0, 0, 0]
-        return freud.plot.box_plot(
-            self,
-            title=title,
-            ax=ax,
-            image=image,
-            *args,  # noqa: B026 - it works
-            **kwargs,
-        )
+        return freud.plot.box_plot(self, title, ax, image, *args, **kwargs)
 
     @classmethod
     def from_box(cls, box, dimensions=None):
diff --git a/freud/locality.py b/freud/locality.py
index 30bbf11..83ba58f 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -438,7 +438,7 @@ class NeighborQuery:
         """
         if not _HAS_MPL:
             raise ImportError(msg_mpl)
-        return freud.plot.system_plot(self, ax=ax, title=title, *args, **kwargs)  # noqa: B026 - it works
+        return freud.plot.system_plot(self, title, ax, *args, **kwargs)
 
 
 class NeighborList:
diff --git a/freud/plot.py b/freud/plot.py
index a23f15a..6766b65 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -141,9 +141,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
             corners[[2, 6]],
             corners[[3, 7]],
         ]
+        color = kwargs.pop("color", "k")
         for path in paths:
-            color = kwargs.pop("color", "k")
-            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color)
+            ax.plot(path[:, 0], path[:, 1], path[:, 2], *args, color=color, **kwargs)
         ax.set_xlabel("$x$")
         ax.set_ylabel("$y$")
         ax.set_zlabel("$z$")
-- 
2.43.0


From a204b4e0febd16167118d2013ed5ebfc4a7ce2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 62/65] fix: set the titles of box and system plots

---
 freud/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/plot.py b/freud/plot.py
index 6766b65..1e1a822 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -154,6 +154,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax
 
 
@@ -204,6 +207,9 @@ def system_plot(system, title=None, ax=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits=limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax, sc
 
 
-- 
2.43.0


From 96d93a2ae79003cf25cff863aeea2959070df432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 63/65] fix: get the colormap of Voronoi plots from pyplot

---
 freud/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index 1e1a822..82d574f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -13,7 +13,6 @@ _HAS_MPL = find_spec("matplotlib") is not None
 if _HAS_MPL:
     import matplotlib.colors
     import matplotlib.pyplot as plt
-    from matplotlib import cm
     from matplotlib.backends.backend_agg import FigureCanvasAgg
     from matplotlib.collections import PatchCollection
     from matplotlib.colorbar import Colorbar
@@ -481,7 +480,7 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
                 )
             cmap = "tab20"
 
-    cmap = cm.get_cmap(cmap, num_colors)
+    cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
     patch_collection.set_array(np.array(colors) - 0.5)
-- 
2.43.0


From 648d214dbba77ab0e5ea2c7df0fa013d380e7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 64/65] fix: color the cells of a Voronoi plot by their own
 areas

---
 freud/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index 82d574f..b185018 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -483,7 +483,9 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
     cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
-    patch_collection.set_array(np.array(colors) - 0.5)
+    if color_by not in continuous_colorby_options:
+        colors = colors - 0.5
+    patch_collection.set_array(np.array(colors))
     patch_collection.set_cmap(cmap)
     patch_collection.set_clim(bounds[0] - 0.5, bounds[-1] + 0.5)
     ax.add_collection(patch_collection)
-- 
2.43.0


From 1e9bab8545e3db3b25ce3b391041fcaedf855c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:58 +0000
Subject: [PATCH 65/65] fix: plot histograms of almost equal values

---
 freud/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index b185018..c13da74 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -320,7 +320,8 @@ def histogram_plot(
         fig = plt.figure()
         ax = fig.subplots()
 
-    ax.hist(values)
+    # Single precision cannot resolve bins between almost equal values.
+    ax.hist(np.asarray(values, dtype=np.float64))
     ax.set_title(title)
     ax.set_xlabel(xlabel)
     ax.set_ylabel(ylabel)
-- 
2.43.0

