From e6f8cedc9496e8db4cb6e36ddf66244c0dd5aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 01/25] fix: Tree.swap_with_nn reads out of bounds for a
 negative position

---
 include/tnco/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..1a1244b 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -151,7 +151,7 @@ struct Tree {
      *
      *   Swap D <-> C.
      */
-    if (pos_D >= static_cast<long int>(size())) {
+    if (pos_D < 0 || pos_D >= static_cast<long int>(size())) {
       return;
     }
 
-- 
2.43.0


From e9172b0241d410b0cae6bc6fbb7736edb8d613a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 02/25] fix: finite-width update divides by zero when no index
 is left to slice

With every index of the new tensor either already sliced or in
'skip_slices', the loop that adds random slices computed 'prng() % 0'.
---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..2131bb3 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_pos > 0 && n_new_slices < max_number_new_slices &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -277,7 +277,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_pos == 0 || n_new_slices >= max_number_new_slices ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 1ccbbeea9421662fe7aa68c5f16b8270881ab92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 03/25] fix: finite-width update uses the cost model for the
 width of sliced tensors

Subtracting log2(dimension) is wrong for sparse indices, whose joint
contribution is capped at the number of projections: slices were reported
as sufficient when they were not.
---
 .../optimize/finite_width/greedy/optimizer.hpp   | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 2131bb3..fc2b68f 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -248,21 +248,13 @@ struct Optimizer : optimize::optimizer::Optimizer {
             ASSERT(!new_slices.test(pos[n_pos - 1]),
                    "Sliced index shouldn't be already sliced.");
 
+            // Update sliced width (before adding the index to new_slices)
+            new_sliced_width_B += p_cmodel->delta_width(
+                new_inds_B - new_slices, dims, pos[n_pos - 1]);
+
             // Add it to new_slices
             new_slices.set(pos[n_pos - 1]);
 
-            // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
-
             // Update number of available slices
             --n_pos;
             ++n_new_slices;
-- 
2.43.0


From e66a0faa36589b2d888cb9b70840698b5e1f0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 04/25] fix: Tree.is_valid accepts trees with inconsistent
 links or cycles

'c == node.is_leaf() ? 0 : 2' parses as '(c == node.is_leaf()) ? 0 : 2', so
the counts were not checked; counts alone would also accept nodes whose
parent and children disagree, and components not connected to the root
(on which an optimizer never terminates).
---
 include/tnco/tree.hpp | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index 1a1244b..8009af1 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -97,38 +97,38 @@ struct Tree {
               "Number of nodes is not constenst with the number of leaves."};
     }
 
-    {
-      std::vector<size_t> count_parents(size());
-      std::vector<size_t> count_children(size());
-      std::for_each(std::begin(nodes), std::end(nodes),
-                    [&count_parents, &count_children](auto &&node) -> auto {
-                      if (!node.is_leaf()) {
-                        count_children[node.children[0]] += 1;
-                        count_children[node.children[1]] += 1;
-                      }
-                      if (!node.is_root()) {
-                        count_parents[node.parent] += 1;
-                      }
-                    });
-
-      // No leaves should be the parent of any nodes. All the other nodes must
-      // have two children
-      if (!std::transform_reduce(std::begin(count_parents),
-                                 std::end(count_parents), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
-                                 })) {
+    // Each node must be the parent of its children and a child of its parent
+    for (size_t pos = 0; pos < size(); ++pos) {
+      const auto index = static_cast<typename node_type::index_type>(pos);
+      const auto &node = nodes[pos];
+      if (!node.is_leaf() && (nodes[node.children[0]].parent != index ||
+                              nodes[node.children[1]].parent != index)) {
         return {false, "Tree is not valid."};
       }
+      if (!node.is_root()) {
+        const auto &parent = nodes[node.parent];
+        if (parent.children[0] != index && parent.children[1] != index) {
+          return {false, "Tree is not valid."};
+        }
+      }
+    }
 
-      // All nodes, excluding root, should be the child of a single node
-      if (!std::transform_reduce(std::begin(count_children),
-                                 std::end(count_children), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
-                                 })) {
+    // All nodes must be reachable from the root
+    {
+      std::vector<bool> reached(size(), false);
+      std::stack<size_t> stack;
+      stack.push(size() - 1);
+      while (!stack.empty()) {
+        const auto pos = stack.top();
+        stack.pop();
+        reached[pos] = true;
+        if (const auto &node = nodes[pos]; !node.is_leaf()) {
+          stack.push(node.children[0]);
+          stack.push(node.children[1]);
+        }
+      }
+      if (!std::all_of(std::begin(reached), std::end(reached),
+                       [](const bool x) -> auto { return x; })) {
         return {false, "Tree is not valid."};
       }
     }
-- 
2.43.0


From 4f44794f86d1b85ef9b3a9894a264920614f2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 05/25] fix: total_cost and min_total_cost report only six
 significant digits

---
 include/tnco/globals.hpp                           | 14 ++++++++++++++
 .../optimize/finite_width/greedy/optimizer.hpp     |  4 ++--
 .../tnco/optimize/infinite_memory/optimizer.hpp    |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/tnco/globals.hpp b/include/tnco/globals.hpp
index 70993c4..c41d23b 100644
--- a/include/tnco/globals.hpp
+++ b/include/tnco/globals.hpp
@@ -14,7 +14,10 @@
 
 #pragma once
 
+#include <iomanip>
+#include <limits>
 #include <random>
+#include <sstream>
 
 #include "bitset.hpp"
 #include "ctree.hpp"
@@ -51,6 +54,17 @@ auto to_string(const T&... x) -> std::string {
   return ss.str();
 }
 
+// Convert to string without losing digits
+template <typename T>
+auto to_exact_string(const T& x) -> std::string {
+  std::ostringstream ss;
+  if constexpr (std::is_floating_point_v<T>) {
+    ss << std::setprecision(std::numeric_limits<T>::max_digits10);
+  }
+  ss << x;
+  return ss.str();
+}
+
 template <typename T>
 auto type_to_str() -> std::string {
   using type = std::decay_t<T>;
diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index fc2b68f..7cc6fcb 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -471,13 +471,13 @@ void init(py::module &m, const std::string &name) {
           "total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_total_cost()));
+            return Decimal(tnco::to_exact_string(self.get_total_cost()));
           })
       .def_property_readonly(
           "min_total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_min_total_cost()));
+            return Decimal(tnco::to_exact_string(self.get_min_total_cost()));
           })
       .def_property_readonly("log2_total_cost",
                              [](const self_type &self) -> auto {
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..eb7a10b 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -274,13 +274,13 @@ void init(py::module &m, const std::string &name) {
           "total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_total_cost()));
+            return Decimal(tnco::to_exact_string(self.get_total_cost()));
           })
       .def_property_readonly(
           "min_total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_min_total_cost()));
+            return Decimal(tnco::to_exact_string(self.get_min_total_cost()));
           })
       .def_property_readonly("log2_total_cost",
                              [](const self_type &self) -> auto {
-- 
2.43.0


From 8754132be114b6184e168e9be9b744eebd5fe28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 06/25] fix: float1024.isinf and float1024.signbit answer isnan

---
 include/tnco/fixed_float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..47fb910 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,9 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit", [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From c0b33795fcb27464d623cc37cc375397247eb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 07/25] fix: float1024 comparisons treat not-a-number as equal
 to every number

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 47fb910..b9877fa 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x) != 0;
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return mpfr_equal_p(_x, x._x) == 0;
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x) != 0;
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x) != 0;
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x) != 0;
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x) != 0;
   }
 
   template <typename T>
-- 
2.43.0


From 339779978893a18d9a62e15191b740c429250787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 08/25] fix: cost of many equal dimensions overflows in double
 for float128 and float1024 costs

---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..774da64 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,8 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    using std::pow;
+    return pow(static_cast<CostType>(dims), inds.count());
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From cbebc2a6d489b19a7fa2bb83a38466fa4bb261ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 09/25] fix: ContractionTree drops the first step of a path
 given as an iterator

---
 tnco/ctree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tnco/ctree.py b/tnco/ctree.py
index 7ddd39d..d1b11d7 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -79,6 +79,7 @@ class ContractionTree(_ContractionTree):
             raise TypeError("Got unexpected keyword arguments.")
 
         # Convert to list
+        path = list(path)
         ts_inds = list(ts_inds)
 
         # If a list of nodes has been provide, use it as 'ctree'
-- 
2.43.0


From eb0033fd456d1d9f02975bdf887517a04ed37db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 10/25] fix: merge_contraction_paths rejects an iterator of
 paths

---
 tnco/utils/tn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..548cfd7 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -334,6 +334,9 @@ def merge_contraction_paths(n_tensors: int,
         >>> merge_contraction_paths(4, paths)
         [(0, 1), (0, 1), (0, 1)]
     """
+    # Convert to list
+    paths = list(paths)
+
     # Initialize merged path and positions
     merged_pos = list(range(n_tensors))
     merged_path = []
-- 
2.43.0


From 435c8e7d0b287c59973df1911e38e6918764e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 11/25] fix: equal OrderedFrozenSets have different hashes

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From 9f2b40b61ec99cbf61c9537c1fe3f2921fbcfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 12/25] fix: tensor.get_einsum_subscripts fails with more than
 52 indices

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..a0e7bd2 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -162,10 +162,13 @@ def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
         >>> get_einsum_subscripts(['i', 'j'], ['j', 'k'], ['i', 'k'])
         'ab,bc->ac'
     """
+    # 'tnco.utils.tn' depends on this module
+    from tnco.utils.tn import get_symbol
+
     # Normalize indexes
     cntr = dict(
         zip(mit.unique_everseen(its.chain(inds_a, inds_b, output_inds)),
-            ascii_letters))
+            map(get_symbol, its.count())))
 
     # Return path
     return ''.join(map(cntr.get, inds_a)) + ',' + ''.join(map(
-- 
2.43.0


From cdfd6585e48b031408090a06760b757c671da23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 13/25] fix: pickling a finite-width optimizer drops
 max_number_new_slices

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..2675dcb 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save slicing options
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,9 +335,10 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
+                         max_number_new_slices=max_number_new_slices,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From 4135bb06c34b38de1801d1c3e868b77dd5539123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 14/25] fix: tensor.decompose_hyper_inds ignores atol after the
 first reduction

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index a0e7bd2..f96a35a 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -139,7 +139,10 @@ def decompose_hyper_inds(
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
-- 
2.43.0


From 5ba5b05b17c08a56a33705e1e137ca743e2ef8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 15/25] fix: decompose_hyper_inds loses indices of tensors
 reduced to scalars

---
 tnco/utils/tn.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 548cfd7..27ec1dd 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -802,7 +802,8 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    arrays = list(map(fts.partial(ar.do, 'asarray'), arrays))
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
     # New tn
@@ -855,6 +856,19 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Tensors reduced to scalars drop all their indices. If an index is not
+    # carried by any other tensor, put it back
+    missing_inds = OrderedFrozenSet(hyper_inds_map.values()).difference(
+        mit.flatten(new_ts_inds))
+    for i, inds in enumerate(ts_inds):
+        inds_map = dict(
+            (hyper_inds_map[x], n) for x, n in zip(inds, arrays[i].shape))
+        if xs := missing_inds.intersection(inds_map):
+            new_arrays[i] = new_arrays[i] * ar.do(
+                'ones_like', arrays[i], shape=tuple(map(inds_map.get, xs)))
+            new_ts_inds[i] = tuple(xs)
+            missing_inds = missing_inds.difference(xs)
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From de677c4ccf47e5621022522bb11057deebfc9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 16/25] fix: sampling from a qiskit circuit loads the circuit
 and does not sample

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..07e384a 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -402,7 +402,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0


From 216ae375c67bff493cd8e77e34a80183dcb4134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 17/25] fix: Parallel leaves its timer and shared memory behind
 when a task fails

---
 tnco/parallel.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..e33c140 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -14,6 +14,7 @@
 """Parallelization utilities."""
 
 import itertools as its
+from contextlib import contextmanager
 from multiprocessing.shared_memory import SharedMemory
 from struct import calcsize, pack_into, unpack_from
 from threading import TIMEOUT_MAX, Thread, Timer
@@ -236,9 +237,26 @@ def Parallel(core: Callable[..., Any],
             stop[idx] = True
 
     timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
-    timer.start()
 
-    with Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
+    # Release all resources, also if 'core' fails
+    @contextmanager
+    def release():
+        try:
+            timer.start()
+            yield
+        finally:
+            # Stop timer
+            timer.cancel()
+
+            # Close buffers
+            status.shm.unlink()
+            completed.shm.unlink()
+            stop.shm.unlink()
+            mit.consume(map(lambda buffer: buffer.shm.unlink(),
+                            buffers.values()))
+
+    with release(), \
+            Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
                              ']'),
                   *Progress.get_default_columns(),
                   TimeElapsedColumn(),
@@ -346,14 +364,5 @@ def Parallel(core: Callable[..., Any],
         if verbose >= 2:
             updater.join()
 
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
-
     # Return results
     return results
-- 
2.43.0


From 78fc2752eb43a0e1b01dd79a41421928be3f244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 18/25] fix: dump_results accepts a compression without a file
 to write to

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..9cf0efe 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -649,7 +649,7 @@ def dump_results(tn: TensorNetwork,
     output_compression = str(output_compression).lower()
     if output_compression not in ['auto', 'none', 'bz2', 'gzip']:
         raise ValueError(f'"{output_compression=}" not supported.')
-    if output_compression not in ['auto', 'none'] and not output_compression:
+    if output_compression not in ['auto', 'none'] and not output_filename:
         raise ValueError(
             "Output can be compressed only if 'output_filename' is provided.")
 
-- 
2.43.0


From 34e6225caf515e0e055d1c6e92cc22fff79509c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 19/25] fix: load_file fails on binary files

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 9cf0efe..4737f14 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -128,7 +128,7 @@ def load_file(filename: str) -> Any:
         # Is json?
         try:
             return json.loads(binary.decode())
-        except json.JSONDecodeError:
+        except (json.JSONDecodeError, UnicodeDecodeError):
             pass
 
         # Is text?
-- 
2.43.0


From b98c9b368c7e0c2b399dadcacfcfff452cc010a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 20/25] fix: decompose_hyper_inds leaves tensors with repeated
 indices

---
 tnco/utils/tn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 27ec1dd..779691a 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -856,6 +856,14 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Merged indices may appear more than once in the same tensor. Only keep
+    # the diagonal
+    for i, xs in enumerate(new_ts_inds):
+        if len(xs_ := tuple(mit.unique_everseen(xs))) < len(xs):
+            new_arrays[i] = ar.do('einsum', get_einsum_subscripts([xs], xs_),
+                                  new_arrays[i])
+            new_ts_inds[i] = xs_
+
     # Tensors reduced to scalars drop all their indices. If an index is not
     # carried by any other tensor, put it back
     missing_inds = OrderedFrozenSet(hyper_inds_map.values()).difference(
-- 
2.43.0


From ecefb75a59bd8c5fa5f28c2a89bd86574ab0bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 21/25] fix: load_tn fails on JSON text longer than a file name

---
 tnco/app/app.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 4737f14..879aea8 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -449,10 +449,11 @@ def load_tn(obj: Any,
         # Is it a file?
         try:
             validate_filepath(obj, platform='auto')
-            if Path(obj).exists():
-                return load_tn(load_file(obj), **options)
-        except ValidationError:
-            pass
+            is_file = Path(obj).exists()
+        except (ValidationError, OSError):
+            is_file = False
+        if is_file:
+            return load_tn(load_file(obj), **options)
 
         # Is it JSON?
         try:
-- 
2.43.0


From 5643ed908c1a218496bde89f43b7a839924a3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 22/25] fix: circuit states given by tokens are rejected in
 single precision

---
 tnco/utils/circuit.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/tnco/utils/circuit.py b/tnco/utils/circuit.py
index fc4dee4..b75b482 100644
--- a/tnco/utils/circuit.py
+++ b/tnco/utils/circuit.py
@@ -296,20 +296,22 @@ def load(circuit: Iterable[Tuple[Matrix, Tuple[Qubit]]],
                        if isinstance(x, str)):
                 raise ValueError("State has not supported tokens.")
 
-            # Convert state
-            state = dict(
-                ((q, tag), valid_token[x] if isinstance(x, str) else ar.
-                 do('asarray', x, dtype=dtype, like=backend))
-                for q, x in state.items()
-                if q in qubits)
+            # Get states
+            state = dict(((q, tag), valid_token[x] if isinstance(x, str) else ar
+                          .do('asarray', x, like=backend))
+                         for q, x in state.items()
+                         if q in qubits)
 
-            # Check states
+            # Check states. Tokens are always normalized
             if not all(
                     x.shape == (2,) and abs(ar.do('linalg.norm', x) - 1) < atol
-                    for x in state.values()):
+                    for x in state.values()
+                    if not any(x is y for y in valid_token.values())):
                 raise ValueError("State is not properly normalized.")
 
-            return state
+            # Convert state
+            return dict((q, ar.do('asarray', x, dtype=dtype, like=backend))
+                        for q, x in state.items())
 
         raise NotImplementedError("State not supported.")
 
-- 
2.43.0


From 811d1ebfc1158c89badc0e8a66dd9d26fe2d4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 23/25] fix: networks with sparse indices and several
 components are refused

---
 tnco/app/finite_width/sa.py    | 20 ++++++++++++++------
 tnco/app/infinite_memory/sa.py | 16 ++++++++++++----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..59ededf 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -170,11 +170,15 @@ class Optimizer(BaseOptimizer):
                                       (betas[1] - betas[0]) / n_steps)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(max_width=self.max_width,
-                                 cost_type=self.cost_type,
-                                 width_type=self.width_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(sparse_inds):
+            return SimpleCostModel(max_width=self.max_width,
+                                   cost_type=self.cost_type,
+                                   width_type=self.width_type,
+                                   sparse_inds=sparse_inds,
+                                   n_projs=n_projs)
+
+        # Check that the cost model is valid
+        get_cmodel(tn.sparse_inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -208,7 +212,11 @@ class Optimizer(BaseOptimizer):
                                         check_shared_inds=True)
 
                 # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(
+                                        tn.sparse_inds.intersection(
+                                            ctree.all_inds())),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..3850829 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -152,9 +152,13 @@ class Optimizer(BaseOptimizer):
                                       (betas[1] - betas[0]) / n_steps)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(cost_type=self.cost_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(sparse_inds):
+            return SimpleCostModel(cost_type=self.cost_type,
+                                   sparse_inds=sparse_inds,
+                                   n_projs=n_projs)
+
+        # Check that the cost model is valid
+        get_cmodel(tn.sparse_inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -185,7 +189,11 @@ class Optimizer(BaseOptimizer):
                                         check_shared_inds=True)
 
                 # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(
+                                        tn.sparse_inds.intersection(
+                                            ctree.all_inds())),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
-- 
2.43.0


From 2eacdc2f512ec1480c3c415764794ace0d0cd0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 24/25] fix: sampling refuses phase-changing permutations whose
 modulus rounds off one

---
 tnco/app/circuit/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 07e384a..37d7df5 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -58,8 +58,8 @@ def is_classical_operation(m: Matrix) -> bool:
     if not (sorted(row_pos) == sorted(col_pos) == list(range(m.shape[0]))):
         return False
 
-    # All elements should be one, excluding a phase
-    if not all(abs(m)[m != 0] == 1):
+    # All elements should be one, excluding a phase (up to rounding)
+    if not all(abs(abs(m)[m != 0] - 1) < 1e-5):
         return False
 
     # Excluding a phase change, it's a permutation
-- 
2.43.0


From 8177d3679d565fb2e4fe2ccf05ad6c6eb1a8c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 25/25] fix: einsum subscripts of iterators are empty

---
 tnco/utils/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index f96a35a..103c493 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -168,6 +168,9 @@ def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
     # 'tnco.utils.tn' depends on this module
     from tnco.utils.tn import get_symbol
 
+    # Iterables are used more than once
+    inds_a, inds_b, output_inds = map(list, (inds_a, inds_b, output_inds))
+
     # Normalize indexes
     cntr = dict(
         zip(mit.unique_everseen(its.chain(inds_a, inds_b, output_inds)),
-- 
2.43.0

