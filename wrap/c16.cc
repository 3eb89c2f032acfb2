// Extraction unit for C16: extracting subgraphs, copying partitions of subgraphs back.
#include "csr_lay.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.cc"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef PartitionedGraph PG; typedef graph::SubgraphMemory SM; typedef graph::TemporarySubgraphMemory TM; typedef graph::SubgraphMemoryStartPosition SP; typedef graph::SequentialSubgraphExtractionResult SR;
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph)
LAYSIZE(sm, SM) LAY(sm_nodes, SM, nodes) LAY(sm_edges, SM, edges) LAY(sm_nw, SM, node_weights) LAY(sm_ew, SM, edge_weights)
LAYSIZE(tm, TM) LAY(tm_nodes, TM, nodes) LAY(tm_edges, TM, edges) LAY(tm_nw, TM, node_weights) LAY(tm_ew, TM, edge_weights) LAY(tm_map, TM, mapping) LAY(tm_nr, TM, num_node_reallocs) LAY(tm_er, TM, num_edge_reallocs)
LAYSIZE(sr, SR) LAY(sr_pos, SR, positions)
LAYSIZE(svec, ScalableVector<StaticArray<BlockID>>)
extern "C" {
void sx_one(Graph &r, const PG &p, const CSRGraph &g, u32 b, const StaticArray<u32> &nodes, const StaticArray<u32> &map, SM &mem) { new (&r) Graph(graph::extract_subgraph_generic_graph(p, g, b, nodes, map, mem)); }
void sx_seq(SR &r, const PG &p, const CSRGraph &g, u32 k0, u32 k1, u64 pn, u64 pe, SM &mem, TM &tmp) { new (&r) SR(graph::extract_subgraphs_sequential_generic_graph(p, g, {k0, k1}, {pn, pe}, mem, tmp)); }
void sx_copy(PG &r, PG &p, const ScalableVector<StaticArray<BlockID>> &s, u32 kp, u32 k, const StaticArray<u32> &map) { new (&r) PG(graph::copy_subgraph_partitions(std::move(p), s, kp, k, map)); }
}
