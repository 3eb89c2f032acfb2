// Extraction unit for C12: gain caches and the delta partition.
#include "csr_lay.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef PartitionedGraph PG; typedef DeltaPartitionedGraph DP;
typedef NormalDenseGainCache<CSRGraph> DG; typedef LargeKDenseGainCache<CSRGraph> DL;
typedef OnTheFlyGainCache<CSRGraph> FG; typedef NormalSparseGainCache<CSRGraph> SG;
LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph)
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
LAYSIZE(dg, DG) LAY(dg_graph, DG, _graph) LAY(dg_pg, DG, _p_graph) LAY(dg_n, DG, _n) LAY(dg_k, DG, _k) LAY(dg_gc, DG, _gain_cache) LAY(dg_wd, DG, _weighted_degrees)
LAYSIZE(fg, FG) LAY(fg_graph, FG, _graph) LAY(fg_pg, FG, _p_graph) LAY(fg_k, FG, _k)
LAYSIZE(sg, SG) LAY(sg_n, SG, _n) LAY(sg_k, SG, _k) LAY(sg_nt, SG, _node_threshold) LAY(sg_so, SG, _sparse_offset) LAY(sg_gc, SG, _gain_cache) LAY(sg_wd, SG, _weighted_degrees) LAY(sg_b, SG, _buckets) LAY(sg_co, SG, _cache_offsets) LAY(sg_graph, SG, _graph) LAY(sg_pg, SG, _p_graph)
extern "C" {
i32 dg_conn(const DG &c, u32 u, u32 b) { return c.conn(u, b); }
i32 dg_gain(const DG &c, u32 u, u32 f, u32 t) { return c.gain(u, f, t); }
bool dg_border(const DG &c, u32 u, u32 b) { return c.is_border_node(u, b); }
void dg_move(DG &c, u32 u, u32 f, u32 t) { c.move(u, f, t); }
void dg_reset(DG &c) { c.reset(); }
void dg_recompute(DG &c) { c.recompute_all(); }
i32 fg_conn(const FG &c, u32 u, u32 b) { return c.conn(u, b); }
i32 fg_gain(const FG &c, u32 u, u32 f, u32 t) { return c.gain(u, f, t); }
bool fg_border(const FG &c, u32 u, u32 b) { return c.is_border_node(u, b); }
void sg_lock(SG &c, u32 u) { c.lock(u); }
void sg_unlock(SG &c, u32 u) { c.unlock(u); }
i32 sg_wdeg(const SG &c, u32 u) { return c.weighted_degree(u); }
i32 sg_conn(const SG &c, u32 u, u32 b) { return c.conn(u, b); }
i32 sg_gain(const SG &c, u32 u, u32 f, u32 t) { return c.gain(u, f, t); }
void sg_move(SG &c, u32 u, u32 f, u32 t) { c.move(u, f, t); }
void sg_recompute(SG &c) { c.recompute(); }
u64 sg_index(const SG &c, u32 u, u32 b) { return c.index_sparse(u, b); }
}
