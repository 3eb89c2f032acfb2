// Extraction unit for C08: quality metrics of a partition.
#include "csr_lay.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/kaminpar.h"
#include <algorithm>
namespace kaminpar::shm { BlockID compute_final_k(BlockID, BlockID, BlockID); }
#include "kaminpar-shm/metrics.h"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef GenericPartitionedGraph<CSRGraph> PG;
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
LAYSIZE(ctx, PartitionContext) LAY(ctx_max, PartitionContext, _max_block_weights) LAY(ctx_k, PartitionContext, k)
extern "C" i32 m_cut_par(const PG &p, const CSRGraph &g) { return metrics::edge_cut(p, g); }
extern "C" i32 m_cut_seq(const PG &p, const CSRGraph &g) { return metrics::edge_cut_seq(p, g); }
extern "C" i32 m_overload(const PG &p, const PartitionContext &c) { return metrics::total_overload(p, c); }
extern "C" bool m_balanced(const PG &p, const PartitionContext &c) { return metrics::is_balanced(p, c); }
extern "C" bool m_feasible(const PG &p, const PartitionContext &c) { return metrics::is_feasible(p, c); }
