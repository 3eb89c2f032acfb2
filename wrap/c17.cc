// Extraction unit for C17: the entry points of the library (kaminpar.cc).
#include "csr_lay.h"
#include "kaminpar-shm/kaminpar.cc"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef PartitionContext PC; typedef KaMinPar KP;
LAYSIZE(pc, PC) LAY(pc_on, PC, original_n) LAY(pc_n, PC, n) LAY(pc_m, PC, m) LAY(pc_otnw, PC, original_total_node_weight) LAY(pc_tnw, PC, total_node_weight) LAY(pc_tew, PC, total_edge_weight) LAY(pc_mnw, PC, max_node_weight) LAY(pc_k, PC, k)
LAY(pc_max, PC, _max_block_weights) LAY(pc_umax, PC, _unrelaxed_max_block_weights) LAY(pc_total, PC, _total_max_block_weights) LAY(pc_eps, PC, _epsilon) LAY(pc_uni, PC, _uniform_block_weights)
LAYSIZE(kp, KP) LAY(kp_threads, KP, _num_threads) LAY(kp_level, KP, _output_level) LAY(kp_ctx, KP, _ctx) LAY(kp_graph, KP, _graph_ptr) LAY(kp_depth, KP, _max_timer_depth) LAY(kp_rearranged, KP, _was_rearranged)
LAY(cx_part, Context, partition) LAY(cx_threads, Context, parallel.num_threads) LAY(cx_node, Context, node_ordering) LAY(cx_edge, Context, edge_ordering) LAY(cx_comp, Context, compression.enabled)
LAYSIZE(pgo, PartitionedGraph) LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph)
// a partitioner: stands for every implementation of the interface (its contract is assumed by the generator, checked by the bounded part)
struct KvcPartitioner : Partitioner { PartitionedGraph partition() override; };
PartitionedGraph kvc_partition(); PartitionedGraph KvcPartitioner::partition() { return kvc_partition(); }
LAYSIZE(partitioner, KvcPartitioner)
extern "C" {
void pc_setup(PC &c, const AbstractGraph &g, std::vector<i32> &w) { c.setup(g, std::move(w), false); }
i32 pc_limit(const PC &c, u32 b) { return c.max_block_weight(b); }
i32 pc_sum(const PC &c, u32 a, u32 b) { return c.total_max_block_weights(a, b); }
i32 kp_partition(KP &s, std::span<BlockID> p) { return s.compute_partition(p); }
void kp_copy(KP &s, const EdgeID *x, u64 nx, const NodeID *a, u64 na, const NodeWeight *v, u64 nv, const EdgeWeight *e, u64 ne) { s.copy_graph({x, nx}, {a, na}, {v, nv}, {e, ne}); }
}
