// Extraction unit for C19: renaming the nodes of a graph, assigning isolated nodes.
#include "csr_lay.h"
#include "kaminpar-shm/graphutils/permutator.cc"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef PartitionedGraph PG; typedef graph::NodePermutations NP;
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
LAYSIZE(pc, PartitionContext) LAY(pc_max, PartitionContext, _max_block_weights) LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph)
LAYSIZE(np, NP) LAY(np_o2n, NP, old_to_new) LAY(np_n2o, NP, new_to_old)
extern "C" {
void pm_build(const StaticArray<u32> &x, const StaticArray<u32> &t, const StaticArray<i32> &nw, const StaticArray<i32> &ew, const NP &p, StaticArray<u32> &x2, StaticArray<u32> &t2, StaticArray<i32> &nw2, StaticArray<i32> &ew2) { graph::build_permuted_graph(x, t, nw, ew, p, x2, t2, nw2, ew2); }
u32 pm_count(const Graph &g) { return graph::count_isolated_nodes(g); }
void pm_assign(PG &r, PG &p, u32 n, const PartitionContext &c) { new (&r) PG(graph::assign_isolated_nodes(std::move(p), n, c)); }
}
