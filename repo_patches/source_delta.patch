From 0a054dd1925da13281c75cd7d81299539bc03710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 01/18] fix: refuse angular grid sizes that are not tabulated
 instead of returning an all-zero grid

---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 4 ++++
 include/integratorxx/quadratures/s2/delley.hpp         | 5 +++++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 4 ++++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 18 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..7a8e660 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -44,6 +45,9 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
 
   inline static std::tuple<point_container, weight_container>
   generate(size_t npts) {
+    // Only the tabulated grids exist: refuse anything else
+    if(algebraic_order_by_npts(npts) < 0)
+      throw std::runtime_error("Incompatible Angular Grid Size");
 
     point_container points(npts);
     weight_container weights(npts);
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..77f4032 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -44,6 +45,10 @@ struct quadrature_traits<Delley<RealType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    // Only the tabulated grids exist: refuse anything else
+    if(algebraic_order_by_npts(npts) < 0)
+      throw std::runtime_error("Incompatible Angular Grid Size");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..078f5d4 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -39,6 +40,9 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
 
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts ) {
+    // Only the tabulated grids exist: refuse anything else
+    if(algebraic_order_by_npts(npts) < 0)
+      throw std::runtime_error("Incompatible Angular Grid Size");
 
     point_container  points( npts );
     weight_container weights( npts );
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..a30285c 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -188,6 +189,10 @@ struct quadrature_traits<Womersley<RealType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    // Only the tabulated grids exist: refuse anything else
+    if(algebraic_order_by_npts(npts) < 0)
+      throw std::runtime_error("Incompatible Angular Grid Size");
+
     point_container points(npts);
     weight_container weights(npts);
 
-- 
2.43.0


From a45ebae1cf0c1cf80f516f4061b999c7eb0e2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 02/18] fix: bound transform onto (-inf,up) must not flip the
 sign of the weights

---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From f84d9b3e47b75d3c6cb2c43a5103790484ce2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 03/18] fix: pruning of radial grids too small to populate
 every region

The robust and Treutler schemes emitted empty regions (and, via them, an
out-of-range read when the grid was generated), and the partition
assertion refused a last region holding a single radial point.
---
 .../pruned_spherical_quadrature.hpp                      | 2 +-
 include/integratorxx/generators/impl/robust_pruning.hpp  | 9 +++++++++
 .../integratorxx/generators/impl/treutler_pruning.hpp    | 9 +++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..11d1e85 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -37,6 +39,13 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
     {r_div_2,     rsz, angular_quad, unp.angular_size}
   };
 
+  // Small radial grids leave some of the regions without any point
+  pruning_regions.erase(
+    std::remove_if(pruning_regions.begin(), pruning_regions.end(),
+      [](const PruningRegion& r){ return r.idx_st >= r.idx_en; }),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..45bbfdc 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -29,6 +31,13 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
     {r_div_2, rsz,     angular_quad, unp.angular_size}
   };
 
+  // Small radial grids leave some of the regions without any point
+  pruning_regions.erase(
+    std::remove_if(pruning_regions.begin(), pruning_regions.end(),
+      [](const PruningRegion& r){ return r.idx_st >= r.idx_en; }),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
-- 
2.43.0


From 3ce51fb05de61dbc4db29c32c4b4c625a2099cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 04/18] fix: batching must terminate for inseparable points and
 refuse a zero batch size

---
 .../integratorxx/batch/spherical_micro_batcher.hpp    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..e424c83 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -515,6 +515,8 @@ public:
 template <typename PointContainer, typename WeightContainer>
 std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::generate_batches() {
 
+  if( max_batch_sz_ == 0 )
+    throw std::runtime_error("Batch Size Must Be Positive");
 
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
@@ -566,6 +568,15 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
 
       new_part_its.insert( new_part_its.end(), batch_part_its.begin(), 
         batch_part_its.end() );
+
+      // Points which cannot be separated in space (e.g. coincident to working
+      // precision) are split by count, otherwise refinement never terminates
+      if( batch_part_its.size() <= 2 ) {
+        for( auto rem = part_counts[ip]; rem > max_batch_sz_; rem -= max_batch_sz_ ) {
+          batch_st += max_batch_sz_;
+          new_part_its.emplace_back( batch_st );
+        }
+      }
     } 
 
     // Sort and remove duplicate iterators of newly added partitions
-- 
2.43.0


From 616ab158b0dfa93bdc56a97922cdf09bb5eff814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/18] fix: Gauss-Legendre and Gauss-Lobatto must converge in
 single precision

---
 .../integratorxx/quadratures/primitive/gausslegendre.hpp   | 7 +++++--
 .../integratorxx/quadratures/primitive/gausslobatto.hpp    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/integratorxx/quadratures/primitive/gausslegendre.hpp b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
index a5ea0d0..cd95040 100644
--- a/include/integratorxx/quadratures/primitive/gausslegendre.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
@@ -2,6 +2,8 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -45,8 +47,9 @@ struct quadrature_traits<
     point_container  points( npts );
     weight_container weights( npts );
 
-    // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    // Absolute precision for the nodes, not beyond that of their type
+    const auto eps = std::max<double>(std::numeric_limits<double>::epsilon(),
+                                      std::numeric_limits<point_type>::epsilon());
 
     // Since the rules are symmetric around the origin, we only need
     // to compute one half of the points
diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..9a118c3 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -2,6 +2,8 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -35,8 +37,9 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
     point_container points(npts);
     weight_container weights(npts);
 
-    // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    // Absolute precision for the nodes, not beyond that of their type
+    const auto eps = std::max<double>(std::numeric_limits<double>::epsilon(),
+                                      std::numeric_limits<point_type>::epsilon());
 
     // 2/(n(n-1)) appears in many expressions
     weight_type two_ov_nnm1 = 2.0 / (npts * (npts - 1.0));
-- 
2.43.0


From ffe6153ffa6321cf779ff1c213283886e3911c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 06/18] fix: copy assignment of a radial grid partition must
 compile

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7fcdc06..5c9060d 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -61,7 +61,8 @@ public:
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
     partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
+    // Quadratures are copyable but not assignable
+    quads_ = std::vector<Quadrature<AngularQuad>>(other.quads_);
     return *this;
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
-- 
2.43.0


From 48a3505e6b342066f8b9c41f9aa07b09ec05190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 07/18] fix: sub-quadratures must store weights in the weight
 container

---
 include/integratorxx/composite_quadratures/sub_quadrature.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..cd4949b 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -55,7 +55,7 @@ struct quadrature_traits<
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-      point_container weights( quad.weights().begin() + begin_idx,
+      weight_container weights( quad.weights().begin() + begin_idx,
                               quad.weights().begin() + end_idx );
 
       return std::make_tuple( points, weights );
-- 
2.43.0


From 69108701007cf9ff00ded24e6a60e8d46cc4c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 08/18] fix: read-only iterators of a batcher must be
 comparable with each other

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index e424c83..8a72a95 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -351,8 +351,8 @@ class SphericalMicroBatcher {
       return *this;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ) const { return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ) const { return !(*this == other);   }
 
 
 
-- 
2.43.0


From 6607fa035a3d92db8c42bcd5d15164d480592198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 09/18] fix: adding an offset to a batch or partition iterator
 must not advance the operand

---
 .../integratorxx/batch/spherical_micro_batcher.hpp | 14 ++++++++------
 .../pruned_spherical_quadrature.hpp                |  9 +++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 8a72a95..2827170 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -275,9 +275,10 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    iterator operator+(int i) const {
+      iterator retval = *this;
+      retval.idx_it += i;
+      return retval;
     } 
 
     bool operator==( iterator other ){ return idx_it == other.idx_it; }
@@ -346,9 +347,10 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    const_iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    const_iterator operator+(int i) const {
+      const_iterator retval = *this;
+      retval.idx_it += i;
+      return retval;
     } 
 
     bool operator==( const_iterator other ) const { return idx_it == other.idx_it; }
diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 5c9060d..7afa6ed 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -104,10 +104,11 @@ public:
       return retval;
     }
 
-    rgp_iterator& operator+(int i) {
-      idx_it  += i;
-      quad_it += i;
-      return (*this);
+    rgp_iterator operator+(int i) const {
+      rgp_iterator retval = *this;
+      retval.idx_it  += i;
+      retval.quad_it += i;
+      return retval;
     }
 
     bool operator==(rgp_iterator other) const { 
-- 
2.43.0


From a12ef8730738d23c9731584d0c69c93c1a450234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/18] fix: post-increment of a read-only partition iterator
 must compile

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7afa6ed..3563b55 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -99,7 +99,7 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
-- 
2.43.0


From 343c07d438662dcdf87ddb48dc831e5a14f23980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 11/18] fix: Gauss-Lobatto must refuse fewer than two points

---
 include/integratorxx/quadratures/primitive/gausslobatto.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 9a118c3..56f5d79 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/legendre.hpp>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -34,6 +35,9 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    if(npts < 2)
+      throw std::runtime_error("Gauss-Lobatto Requires At Least Two Points");
+
     point_container points(npts);
     weight_container weights(npts);
 
-- 
2.43.0


From 05bb41b17dc046f06df4e84eaeb9af75b1a215f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 12/18] fix: the trapezoid rule must refuse fewer than two
 points

---
 include/integratorxx/quadratures/primitive/uniform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/uniform.hpp b/include/integratorxx/quadratures/primitive/uniform.hpp
index 30c3372..c728a8a 100644
--- a/include/integratorxx/quadratures/primitive/uniform.hpp
+++ b/include/integratorxx/quadratures/primitive/uniform.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -48,6 +49,9 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts, point_type lo, point_type up ) {
 
+    if( npts < 2 )
+      throw std::runtime_error("Trapezoid Rule Requires At Least Two Points");
+
     const auto npts_use = npts - 1;
     const auto delta_x  = (up - lo) / npts_use;
     point_container  points( npts );
-- 
2.43.0


From c606a59c41202d7c5ae77c43c4fd346b08b7da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 13/18] fix: batching a grid without points must not
 dereference its end

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 2827170..7a7e741 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -520,6 +520,9 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
   if( max_batch_sz_ == 0 )
     throw std::runtime_error("Batch Size Must Be Positive");
 
+  // A grid without points has no batches
+  if( quad_->npts() == 0 ) return { 0ul };
+
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
   for( size_t i = 0; i < quad_->npts(); ++i ) {
-- 
2.43.0


From eb94681ddc7a19987c16a9c6e0c50bd3fd6bf4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 14/18] fix: pruned grids must refuse regions that do not fit
 the radial grid

---
 include/integratorxx/generators/impl/pruned_grid.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..c7af094 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -39,6 +39,16 @@ auto make_pruned_grid(const RadialQuadType& rq,
       throw std::runtime_error("Mixed Angular Pruning Not Supported");
   }
 
+  // Regions must start at the first radial point and follow each other
+  // within the radial grid
+  for(size_t i = 0; i < pruning_regions.size(); ++i) {
+    const auto idx_st = pruning_regions[i].idx_st;
+    if(i ? idx_st <= pruning_regions[i-1].idx_st : idx_st != 0)
+      throw std::runtime_error("Invalid Pruning Region Bounds");
+    if(idx_st >= rq.npts())
+      throw std::runtime_error("Pruning Region Exceeds Radial Grid");
+  }
+
   switch(angular_quad) {
     case AngularQuad::AhrensBeylkin:
       return make_pruned_grid_impl<ah_type>(rq, pruning_regions);
-- 
2.43.0


From 36955fd6326bd8017849093548fac0a67916bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 15/18] fix: headers must compile when they are included on
 their own

---
 include/integratorxx/batch/spherical_micro_batcher.hpp        | 1 +
 .../integratorxx/composite_quadratures/product_quadrature.hpp | 4 ++++
 include/integratorxx/util/bound_transform.hpp                 | 2 ++
 include/integratorxx/util/copy_grid.hpp                       | 2 ++
 include/integratorxx/util/create_array.hpp                    | 4 ++++
 include/integratorxx/util/legendre.hpp                        | 1 +
 6 files changed, 14 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 7a7e741..40727c1 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -2,6 +2,7 @@
 
 #include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
 #include <integratorxx/type_traits.hpp>
+#include <algorithm>
 #include <chrono>
 #include <iostream>
 #include <iomanip>
diff --git a/include/integratorxx/composite_quadratures/product_quadrature.hpp b/include/integratorxx/composite_quadratures/product_quadrature.hpp
index 4268570..5f32813 100644
--- a/include/integratorxx/composite_quadratures/product_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/product_quadrature.hpp
@@ -2,6 +2,10 @@
 
 #include <integratorxx/quadrature.hpp>
 
+#include <memory>
+#include <tuple>
+#include <vector>
+
 namespace IntegratorXX {
 
 template <typename CombineOp, typename Quad1, typename Quad2>
diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index ce4053c..85c4f02 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cassert>
 #include <limits>
+#include <tuple>
 
 namespace IntegratorXX {
 
diff --git a/include/integratorxx/util/copy_grid.hpp b/include/integratorxx/util/copy_grid.hpp
index 9d670c8..770c2fb 100644
--- a/include/integratorxx/util/copy_grid.hpp
+++ b/include/integratorxx/util/copy_grid.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
diff --git a/include/integratorxx/util/create_array.hpp b/include/integratorxx/util/create_array.hpp
index f853964..ef2549f 100644
--- a/include/integratorxx/util/create_array.hpp
+++ b/include/integratorxx/util/create_array.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <array>
+#include <cstddef>
+#include <utility>
+
 namespace IntegratorXX {
 
 namespace detail {
diff --git a/include/integratorxx/util/legendre.hpp b/include/integratorxx/util/legendre.hpp
index 3ad4615..13b376a 100644
--- a/include/integratorxx/util/legendre.hpp
+++ b/include/integratorxx/util/legendre.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <tuple>
 
 namespace IntegratorXX {
-- 
2.43.0


From c3b5fd1f01946f0a0d8d55ddc5cf762c1a1ed044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 16/18] fix: resolve quadrature names independently of the
 locale

std::toupper follows the locale of the process; in Turkish and Azerbaijani
locales the lower-case i has no upper-case ASCII counterpart, so documented
names like "LebedevLaikov" were refused.
---
 include/integratorxx/generators/impl/radial_factory.hpp | 2 +-
 include/integratorxx/generators/impl/s2_factory.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/generators/impl/radial_factory.hpp b/include/integratorxx/generators/impl/radial_factory.hpp
index b1c01a1..2efbf2f 100644
--- a/include/integratorxx/generators/impl/radial_factory.hpp
+++ b/include/integratorxx/generators/impl/radial_factory.hpp
@@ -9,7 +9,7 @@ namespace IntegratorXX {
 
 RadialQuad radial_from_string(std::string name) {
   std::transform(name.begin(), name.end(), name.begin(),
-    [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+    [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; });
   if(name == "BECKE")             return RadialQuad::Becke;
   if(name == "MURAKNOWLES")       return RadialQuad::MuraKnowles;
   if(name == "MK")                return RadialQuad::MuraKnowles;
diff --git a/include/integratorxx/generators/impl/s2_factory.hpp b/include/integratorxx/generators/impl/s2_factory.hpp
index 3e0363d..dbb3f4a 100644
--- a/include/integratorxx/generators/impl/s2_factory.hpp
+++ b/include/integratorxx/generators/impl/s2_factory.hpp
@@ -9,7 +9,7 @@ namespace IntegratorXX {
 
 AngularQuad angular_from_string(std::string name) {
   std::transform(name.begin(), name.end(), name.begin(),
-    [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+    [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; });
   if(name == "AHRENSBEYLKIN") return AngularQuad::AhrensBeylkin;
   if(name == "AB")            return AngularQuad::AhrensBeylkin;
   if(name == "DELLEY")        return AngularQuad::Delley;
-- 
2.43.0


From 6a751c2617a36f5a9643c2b2a464f31ae10e9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 17/18] fix: take the configured header directory into the
 installed targets

The installed target always named <prefix>/include, whatever
CMAKE_INSTALL_INCLUDEDIR the headers went to, so that a project that found
the package did not find its headers.
---
 CMakeLists.txt | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index c530923..cfa6e62 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -13,11 +13,14 @@ else()
   set(INTEGRATORXX_TARGET_TYPE PUBLIC)
 endif()
 
+# Installation directories
+include( GNUInstallDirs )
+
 # Target features
 target_compile_features( integratorxx ${INTEGRATORXX_TARGET_TYPE} cxx_std_17 )
 target_include_directories( integratorxx
   ${INTEGRATORXX_TARGET_TYPE} 
-    $<INSTALL_INTERFACE:include>
+    $<INSTALL_INTERFACE:${CMAKE_INSTALL_INCLUDEDIR}>
     $<BUILD_INTERFACE:${PROJECT_SOURCE_DIR}/include>
 )
 
@@ -44,7 +47,6 @@ endif()
 
 # INSTALL rules
 add_library( IntegratorXX::IntegratorXX ALIAS integratorxx )
-include( GNUInstallDirs )
 set( INSTALL_CONFIGDIR ${CMAKE_INSTALL_LIBDIR}/cmake/IntegratorXX )
 
 # Targets
-- 
2.43.0


From f7095f1abe1ddb936beb7538934fa179ee06c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 18/18] fix: leave a radial partition whole when memory runs
 out

A region whose angular rule could not be stored left its start index behind,
and an assignment that failed halfway mixed the two partitions.
---
 .../pruned_spherical_quadrature.hpp                 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 3563b55..d5be0d8 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -39,7 +39,13 @@ public:
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
-    quads_.emplace_back(q);
+    try {
+      quads_.emplace_back(q);
+    } catch(...) {
+      // Add either both or none
+      partition_idx_.pop_back();
+      throw;
+    }
   }
 
 
@@ -60,9 +66,10 @@ public:
     quads_(std::move(other.quads_)){ };
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
-    partition_idx_ = other.partition_idx_;
     // Quadratures are copyable but not assignable
-    quads_ = std::vector<Quadrature<AngularQuad>>(other.quads_);
+    std::vector<Quadrature<AngularQuad>> quads(other.quads_);
+    partition_idx_ = other.partition_idx_;
+    quads_ = std::move(quads);
     return *this;
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
-- 
2.43.0

