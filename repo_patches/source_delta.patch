From bfe5a6ec319a6e8d5faa6630aaad0da6d6c2b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 01/23] fix: DynamicBinaryForest::push_or_change_priority calls
 contains() with its actual signature

---
 kaminpar-common/datastructures/binary_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/binary_heap.h b/kaminpar-common/datastructures/binary_heap.h
index 1d3423e..b718b1f 100644
--- a/kaminpar-common/datastructures/binary_heap.h
+++ b/kaminpar-common/datastructures/binary_heap.h
@@ -531,7 +531,7 @@ public:
   }
 
   void push_or_change_priority(const std::size_t heap, const ID id, const Key &new_key) {
-    if (contains(heap, id)) {
+    if (contains(id)) {
       change_priority(heap, id, new_key);
     } else {
       push(heap, id, new_key);
-- 
2.43.0


From ff9b5523a96343489672d043a59cf5f41e85a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 02/23] fix: compute powers of two in the requested integer
 type instead of int

---
 kaminpar-common/degree_buckets.h | 2 +-
 kaminpar-common/math.h           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/degree_buckets.h b/kaminpar-common/degree_buckets.h
index 095fb60..881b6bd 100644
--- a/kaminpar-common/degree_buckets.h
+++ b/kaminpar-common/degree_buckets.h
@@ -17,7 +17,7 @@ template <typename NodeID>
 static constexpr int kNumberOfDegreeBuckets = std::numeric_limits<NodeID>::digits + 1;
 
 template <typename NodeID> inline NodeID lowest_degree_in_bucket(const int bucket) {
-  return (1u << bucket) >> 1u;
+  return (bucket == 0) ? 0 : static_cast<NodeID>(1) << (bucket - 1);
 }
 
 template <typename NodeID> inline int degree_bucket(const NodeID degree) {
diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 180b47a..7384e91 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -96,7 +96,7 @@ template <typename T> T floor_log2(const T arg) {
 }
 
 template <typename T> T floor2(const T arg) {
-  return 1 << floor_log2(arg);
+  return static_cast<T>(1) << floor_log2(arg);
 }
 
 //! With `UInt = uint32_t`, same as
@@ -106,7 +106,7 @@ template <typename T> T ceil_log2(const T arg) {
 }
 
 template <typename T> T ceil2(const T arg) {
-  return 1 << ceil_log2(arg);
+  return static_cast<T>(1) << ceil_log2(arg);
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
@@ -243,6 +243,6 @@ auto find_min_mean_max(const Container &container)
 }
 
 template <typename Int> Int create_mask(const int num_bits) {
-  return (1 << num_bits) - 1;
+  return (static_cast<Int>(1) << num_bits) - 1;
 }
 } // namespace kaminpar::math
-- 
2.43.0


From 09059ce9f211e35df61af2c8e81087192f939978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 03/23] fix: do not shift by the full integer width in
 compute_final_k for current_k = 1

---
 kaminpar-shm/partitioning/partition_utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index 3f50d36..8bff72a 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -23,6 +23,12 @@ BlockID compute_final_k(const BlockID block, const BlockID current_k, const Bloc
     return 1;
   }
 
+  // The root of the binary tree spans all blocks; note that the bit reversal below is not defined
+  // for level 0 (shift by the full width of BlockID).
+  if (current_k == 1) {
+    return input_k;
+  }
+
   // The level of the current block in the binary tree == log2(current_k)
   const BlockID level = math::floor_log2(current_k);
 
-- 
2.43.0


From 528dc35289908f54922912cb167638e19a38422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 04/23] fix: skip unassigned nodes when computing the weights
 of many blocks

init_block_weights_par() indexed the block weights by kInvalidBlockID if the partition
has at least 65536 blocks and contains unassigned nodes, e.g., if constructed without a
partition.
---
 kaminpar-shm/datastructures/partitioned_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/datastructures/partitioned_graph.h b/kaminpar-shm/datastructures/partitioned_graph.h
index 40f6068..d84034b 100644
--- a/kaminpar-shm/datastructures/partitioned_graph.h
+++ b/kaminpar-shm/datastructures/partitioned_graph.h
@@ -273,7 +273,9 @@ private:
   void init_block_weights_par() {
     if (k() >= 65536) {
       this->pfor_nodes([&](const NodeID u) {
-        __atomic_fetch_add(&_block_weights[block(u)], this->node_weight(u), __ATOMIC_RELAXED);
+        if (const BlockID b = block(u); b != kInvalidBlockID) {
+          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);
+        }
       });
       return;
     }
-- 
2.43.0


From f03c73ab3668c737c72ca4686a9877a3760f4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 05/23] fix: post-decrement of Atomic decrements instead of
 incrementing

---
 kaminpar-common/parallel/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/atomic.h b/kaminpar-common/parallel/atomic.h
index 3f06fcf..b1095f3 100644
--- a/kaminpar-common/parallel/atomic.h
+++ b/kaminpar-common/parallel/atomic.h
@@ -100,7 +100,7 @@ public:
   }
 
   T operator--(int) & noexcept {
-    return _value++;
+    return _value--;
   } // NOLINT
 
   T operator+=(T arg) noexcept {
-- 
2.43.0


From f34cb4cb041984269bde4d0dea46c7fac2c9facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 06/23] fix: aligned_prefix_sum reports the size of a single
 element

---
 kaminpar-common/parallel/aligned_prefix_sum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/aligned_prefix_sum.h b/kaminpar-common/parallel/aligned_prefix_sum.h
index ad39fa7..efb35ef 100644
--- a/kaminpar-common/parallel/aligned_prefix_sum.h
+++ b/kaminpar-common/parallel/aligned_prefix_sum.h
@@ -57,7 +57,7 @@ std::size_t aligned_prefix_sum(OutputIt begin, OutputIt end, AlignedValueLambda
   *begin = 0;
   --n;
   if (n == 0) {
-    return 0;
+    return l(0).second;
   }
 
   auto compute_alignment_offset = [&](const std::size_t alignment, const std::size_t value) {
-- 
2.43.0


From 1e8969c28693b683e0eece233d3485c45ec882e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 07/23] fix: initialise the degree and weight maxima and the
 sorted flag in every CSRGraph constructor

---
 kaminpar-shm/datastructures/csr_graph.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..9ed8957 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -7,6 +7,7 @@
  ******************************************************************************/
 #include "kaminpar-shm/datastructures/csr_graph.h"
 
+#include <algorithm>
 #include <numeric>
 
 #include <tbb/enumerable_thread_specific.h>
@@ -24,6 +25,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       _edges(graph.m()),
       _node_weights(graph.n()),
       _edge_weights(graph.m()),
+      _sorted(graph.sorted()),
       _buckets(kNumberOfDegreeBuckets<NodeID> + 1) {
   graph.reified([&](const auto &graph) {
     _nodes.front() = 0;
@@ -42,6 +44,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       });
     });
 
+    _max_node_weight = graph.max_node_weight();
     _total_node_weight = graph.total_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
@@ -112,6 +115,11 @@ CSRGraph::CSRGraph(
         std::accumulate(_edge_weights.begin(), _edge_weights.end(), static_cast<EdgeWeight>(0));
   }
 
+  _max_degree = 0;
+  for (NodeID u = 0; u < n(); ++u) {
+    _max_degree = std::max(_max_degree, degree(u));
+  }
+
   // TODO: Use a sequential routine to initialize degree buckets since work isolation can otherwise
   // be violated. However, this does not currently pose a problem as it is not called in parallel.
   init_degree_buckets();
-- 
2.43.0


From e959668a5fbef4ed7910553c6b9f8e0c191d5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 08/23] fix: a sorted empty graph has no degree buckets instead
 of an underflowed count

---
 kaminpar-shm/datastructures/compressed_graph.cc | 4 +++-
 kaminpar-shm/datastructures/csr_graph.cc        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..23e4e86 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -60,7 +60,9 @@ void CompressedGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0 // empty graph
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 9ed8957..2d1c7f4 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -227,7 +227,9 @@ void CSRGraph::init_degree_buckets() {
     );
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0 // empty graph
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
-- 
2.43.0


From 5decba828c5ff73633df7cea1dc90860e7aa7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/23] fix: the compressed edges builder keeps track of the
 maximum degree

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..b5543ac 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -221,6 +221,7 @@ public:
     }
 
     _cur_edge += degree;
+    _max_degree = std::max(_max_degree, degree);
 
     if constexpr (kHighDegreeEncoding) {
       const bool split_neighbourhood = degree >= kHighDegreeThreshold;
-- 
2.43.0


From 716ee96875d28b247d0fa94cd0531a8914b47f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/23] fix: a neighbour limit of zero visits no neighbour of a
 compressed graph

---
 kaminpar-common/graph_compression/compressed_neighborhoods.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_neighborhoods.h b/kaminpar-common/graph_compression/compressed_neighborhoods.h
index d8c4df1..3d77d29 100644
--- a/kaminpar-common/graph_compression/compressed_neighborhoods.h
+++ b/kaminpar-common/graph_compression/compressed_neighborhoods.h
@@ -269,6 +269,10 @@ public:
     constexpr bool kNonStoppable =
         std::is_void_v<std::invoke_result_t<Callback, NodeID, EdgeWeight>>;
 
+    if (max_num_neighbors == 0) [[unlikely]] {
+      return;
+    }
+
     NodeID num_neighbors_visited = 1;
     const auto invoke_and_check = [&](const NodeID v, const EdgeWeight w) {
       bool abort = num_neighbors_visited++ >= max_num_neighbors;
-- 
2.43.0


From 7c3bba0b15a286b78f516b25c560728c9c799c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/23] fix: count edge weights written by the StreamVByte
 encoder in the total edge weight

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index b5543ac..8900ecc 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -552,6 +552,7 @@ private:
               const EdgeWeight weight = get_edge_weight(neighborhood, i);
               _cur_compressed_edges += encoder.add(adjacent_node);
               _cur_compressed_edges += encoder.add(weight);
+              _total_edge_weight += weight;
 
               i += 1;
             }
-- 
2.43.0


From 95b28ddc1cc26d656234373f2ede073f44d7c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 12/23] fix: reserve memory for the control bytes of the
 StreamVByte encoding

---
 .../graph_compression/compressed_edges_builder.h            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 8900ecc..d04642e 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -85,6 +85,12 @@ public:
       max_size += num_edges * varint_max_length<EdgeWeight>();
     }
 
+    if constexpr (kStreamVByteEncoding) {
+      // Control bytes (one for up to four values) and the 15 bytes following the data that the
+      // stream decoder might read.
+      max_size += num_nodes + num_edges / 2 + 15;
+    }
+
     return max_size;
   }
 
-- 
2.43.0


From 87296f93f13f20cae266b18f38f5833e96702b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 13/23] fix: use the value type for the bit masks of Marker
 (marks were lost once the timestamp exceeded 32 bits)

---
 kaminpar-common/datastructures/marker.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kaminpar-common/datastructures/marker.h b/kaminpar-common/datastructures/marker.h
index e32e160..05e595b 100644
--- a/kaminpar-common/datastructures/marker.h
+++ b/kaminpar-common/datastructures/marker.h
@@ -23,6 +23,9 @@ template <
     typename Value = std::size_t,
     template <typename...> typename Container = std::vector>
 class Marker {
+  // Bits used for the markers; the remaining (higher) bits store the timestamp
+  constexpr static Value kMarkerMask = (static_cast<Value>(1) << kNumConcurrentMarkers) - 1;
+
 public:
   explicit Marker() : _marker_id(0), _first_unmarked_element{0} {
     RECORD_DATA_STRUCT(0, _struct);
@@ -46,9 +49,9 @@ public:
     KASSERT(marker < kNumConcurrentMarkers);
     KASSERT(element < _data.size());
 
-    _data[element] = ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id)
-                         ? _data[element] | (1u << marker)
-                         : _marker_id | (1u << marker);
+    _data[element] = ((_data[element] & ~kMarkerMask) == _marker_id)
+                         ? _data[element] | (static_cast<Value>(1) << marker)
+                         : _marker_id | (static_cast<Value>(1) << marker);
 
     if constexpr (track_first_unmarked_element) {
       while (_first_unmarked_element[marker] < _data.size() &&
@@ -65,8 +68,8 @@ public:
 
   [[nodiscard]] bool get(const std::size_t element, const std::size_t marker = 0) const {
     KASSERT(marker < kNumConcurrentMarkers);
-    return ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
-           ((_data[element] & (1u << marker)) != 0);
+    return ((_data[element] & ~kMarkerMask) == _marker_id) &&
+           ((_data[element] & (static_cast<Value>(1) << marker)) != 0);
   }
 
   [[nodiscard]] inline std::size_t size() const {
@@ -80,11 +83,11 @@ public:
   // Increase timestamp s.t. the least significant
   // num_concurrent_markers bits are zeroed
   void reset() {
-    _marker_id |= (1u << kNumConcurrentMarkers) - 1u;
+    _marker_id |= kMarkerMask;
     _marker_id += 1u;
     _first_unmarked_element.fill(0);
 
-    if ((_marker_id | ((1u << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
+    if ((_marker_id | kMarkerMask) == std::numeric_limits<Value>::max()) {
       _marker_id = 0;
 
       if constexpr (std::is_same_v<Container<Value>, std::vector<Value>>) {
-- 
2.43.0


From bec29d907d9887ac784125ff52512d7e1fd57d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 14/23] fix: compare all bytes of the elements in
 StaticArray::operator==

---
 kaminpar-common/datastructures/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..8df1240 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -193,7 +193,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::memcmp(_data, other._data, size() * sizeof(T)) == 0;
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From a04375d48706f4ca17bfa2de6017fc83fffb9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 15/23] fix: post-increment and post-decrement of the
 CompactStaticArray iterator move the iterator

---
 kaminpar-common/datastructures/compact_static_array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/datastructures/compact_static_array.h b/kaminpar-common/datastructures/compact_static_array.h
index a9373f1..3dad1ac 100644
--- a/kaminpar-common/datastructures/compact_static_array.h
+++ b/kaminpar-common/datastructures/compact_static_array.h
@@ -62,12 +62,14 @@ template <std::unsigned_integral Int> class CompactStaticArray {
       return _data -= _byte_width, *this;
     }
 
-    CompactStaticArrayIterator operator++(int) const {
-      return CompactStaticArrayIterator{_byte_width, _data + _byte_width};
+    CompactStaticArrayIterator operator++(int) {
+      auto tmp = *this;
+      return ++*this, tmp;
     }
 
-    CompactStaticArrayIterator operator--(int) const {
-      return CompactStaticArrayIterator{_byte_width, _data - _byte_width};
+    CompactStaticArrayIterator operator--(int) {
+      auto tmp = *this;
+      return --*this, tmp;
     }
 
     CompactStaticArrayIterator operator+(const difference_type n) const {
-- 
2.43.0


From c1e915bb7662c4167c16d9634a724b888214cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 16/23] fix: size the hash tables of HashingGainCache by the
 offsets of the current graph

---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..d02e834 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 42d17402823ceaf70461f0541552434de1b7f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 17/23] fix: report connections, not gains, for blocks that
 became adjacent in LargeKGenericDeltaGainCache

---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..068ff7f 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,9 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            const EdgeWeight value =
+                kIteratesExactGains ? _gain_cache.gain(node, from, to) : _gain_cache.conn(node, to);
+            return value + conn_delta(node, to) - conn_from_delta;
           });
         }
       }
-- 
2.43.0


From e6422858b84664bfe8095b2fe3d4b59f890fe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 18/23] fix: ceil2(0) is 1 instead of undefined (degrees of
 isolated nodes in the hashing gain caches)

---
 kaminpar-common/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 7384e91..b430d42 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -106,7 +106,7 @@ template <typename T> T ceil_log2(const T arg) {
 }
 
 template <typename T> T ceil2(const T arg) {
-  return static_cast<T>(1) << ceil_log2(arg);
+  return arg == 0 ? static_cast<T>(1) : static_cast<T>(1) << ceil_log2(arg);
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
-- 
2.43.0


From e8110d260b2810a073b8b94a5e5bfa45665616c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 19/23] fix: Queue::tail returns the last element, not the cell
 behind it

---
 kaminpar-common/datastructures/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/queue.h b/kaminpar-common/datastructures/queue.h
index 4f242f3..17881f9 100644
--- a/kaminpar-common/datastructures/queue.h
+++ b/kaminpar-common/datastructures/queue.h
@@ -45,7 +45,7 @@ public:
   // Access operators
   const_reference tail() const {
     KASSERT(!empty());
-    return _data[_tail];
+    return _data[_tail - 1];
   }
 
   const_reference head() const {
-- 
2.43.0


From e65513703c0980b0933386c58ce5f8a8c360768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 20/23] fix: an unconstructed CompactStaticArray ends where it
 begins

---
 kaminpar-common/datastructures/compact_static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/compact_static_array.h b/kaminpar-common/datastructures/compact_static_array.h
index 3dad1ac..d20214e 100644
--- a/kaminpar-common/datastructures/compact_static_array.h
+++ b/kaminpar-common/datastructures/compact_static_array.h
@@ -280,7 +280,7 @@ public:
    * @return An interator to the end.
    */
   [[nodiscard]] CompactStaticArrayIterator end() const {
-    const std::uint8_t *data = _values.get() + _size - (sizeof(Int) - _byte_width);
+    const std::uint8_t *data = _values.get() + _num_values * _byte_width;
     return CompactStaticArrayIterator{_byte_width, data};
   }
 
-- 
2.43.0


From 140a7079702bfbc0e6d2eaafc2fd616d4662c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 21/23] fix: greedy balancer no longer spins on nodes that fit
 into no block

A node without a feasible adjacent block that could not be moved to any
underloaded block either was re-inserted into the otherwise empty queue with an
unchanged priority and popped again forever, so that partitioning never
terminated on instances whose node weights do not fit the block weight limits.
---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..131c741 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,7 +201,7 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
             add_to_pq(from, u, u_weight, actual_relative_gain);
           }
         } else { // gain changed after insertion --> try again with new gain
-- 
2.43.0


From 96cb12ee91fd9d8a234c7f957443a72f48b471ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 22/23] fix: a partition into one block consists of block 0
 only

The partitioning schemes start from a bipartition; without refinement (preset
noref) half of the nodes ended up in the non-existing block 1 if k = 1.
---
 kaminpar-shm/kaminpar.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 7d36a4e..db9e5bc 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -329,6 +329,13 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
     print(_ctx, std::cout);
   }
 
+  // With a single block, there is nothing to partition; the partitioning schemes below always produce
+  // at least two blocks
+  if (_ctx.partition.k <= 1) {
+    std::fill_n(partition.begin(), _graph_ptr->n(), static_cast<BlockID>(0));
+    return 0;
+  }
+
   START_HEAP_PROFILER("Partitioning");
   START_TIMER("Partitioning");
 
-- 
2.43.0


From 11e484ffd93416d254b0ead2b25e845d7cb45eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 23/23] fix: allocate memory for weights when subgraph memory
 was used without weights before

---
 kaminpar-shm/partitioning/helper.cc | 42 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 8eb408d..2414d14 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -283,22 +283,23 @@ void extend_partition_lazy_extraction(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      // The memory might have been allocated for another graph without weights
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
@@ -530,22 +531,23 @@ void complete_partial_extend_partition(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      // The memory might have been allocated for another graph without weights
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
-- 
2.43.0

