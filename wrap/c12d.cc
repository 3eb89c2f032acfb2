// Extraction unit for C12: the delta partition and the delta gain caches of thread-local searches.
#include "csr_lay.h"
#include "kaminpar-shm/datastructures/csr_graph.cc"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef PartitionedGraph PG; typedef DeltaPartitionedGraph DP; typedef NormalDenseGainCache<CSRGraph> DG; typedef DG::DeltaGainCache DD;
LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph)
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
LAYSIZE(dg, DG) LAY(dg_graph, DG, _graph) LAY(dg_pg, DG, _p_graph) LAY(dg_n, DG, _n) LAY(dg_k, DG, _k) LAY(dg_gc, DG, _gain_cache) LAY(dg_wd, DG, _weighted_degrees)
LAYSIZE(dp, DP) LAY(dp_graph, DP, _graph) LAY(dp_pg, DP, _p_graph) LAY(dp_bw, DP, _block_weights_delta) LAY(dp_map, DP, _partition_delta)
LAYSIZE(dd, DD) LAY(dd_k, DD, _k) LAY(dd_map, DD, _gain_cache_delta)
extern "C" {
u32 dp_block(const DP &d, u32 u) { return d.block(u); }
void dp_set(DP &d, u32 u, u32 b) { d.set_block(u, b); }
i32 dp_bweight(const DP &d, u32 b) { return d.block_weight(b); }
i32 dd_conn(const DD &c, u32 u, u32 b) { return c.conn(u, b); }
i32 dd_gain(const DD &c, u32 u, u32 f, u32 t) { return c.gain(u, f, t); }
void dd_move(DD &c, u32 u, u32 f, u32 t) { c.move(u, f, t); }
}
