// Extraction unit for C11: preprocessing of contractions and projections between levels.
#include "csr_lay.h"
#include "kaminpar-shm/datastructures/csr_graph.cc"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm; using namespace kaminpar::shm::contraction;
typedef StaticArray<u32> SA32; LAY(sa_owned, SA32, _owned_data) LAY(sa_over, SA32, _overcommited_data)
LAYSIZE(graph, Graph) LAY(graph_under, Graph, _underlying_graph) LAYSIZE(coarse, CoarseGraphImpl) LAY(coarse_map, CoarseGraphImpl, _mapping)
extern "C" void c_up(CoarseGraphImpl &c, std::span<const u32> *coarse, std::span<u32> *fine) { c.CoarseGraphImpl::project_up(*coarse, *fine); }
extern "C" void c_down(CoarseGraphImpl &c, std::span<const u32> *fine, std::span<u32> *coarse) { c.CoarseGraphImpl::project_down(*fine, *coarse); }
extern "C" void c_leaders(const Graph &g, const StaticArray<u32> &cl, StaticArray<u32> &lm) { fill_leader_mapping(g, cl, lm); }
extern "C" void c_buckets(u32 c_n, const Graph &g, const StaticArray<u32> &map, StaticArray<u32> &bi, StaticArray<u32> &b) { fill_cluster_buckets(c_n, g, map, bi, b); }
extern "C" const u32 *c_map(const Graph &g, StaticArray<u32> &cl, const StaticArray<u32> &lm) { return compute_mapping(g, std::move(cl), lm).data(); }
