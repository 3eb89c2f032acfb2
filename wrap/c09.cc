// Extraction unit for C09: the uncompressed graph object.
#include "csr_lay.h"
#include "kaminpar-shm/datastructures/csr_graph.cc"
LAY(csr_buckets, kaminpar::shm::CSRGraph, _buckets) LAY(csr_nbuckets, kaminpar::shm::CSRGraph, _number_of_buckets)
LAY(sa_unrestricted, kaminpar::StaticArray<unsigned>, _unrestricted_size)
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
// environment: receives the visited neighbours in order
extern "C" void kvc_visit(u32 v, i32 w) noexcept;
extern "C" void kvc_visit_e(u32 e, u32 v, i32 w) noexcept;
extern "C" bool kvc_visit_stop(u32 v, i32 w) noexcept;
extern "C" u32 g_n(const CSRGraph &g) { return g.n(); }
extern "C" u32 g_m(const CSRGraph &g) { return g.m(); }
extern "C" u32 g_degree(const CSRGraph &g, u32 u) { return g.degree(u); }
extern "C" i32 g_node_weight(const CSRGraph &g, u32 u) { return g.node_weight(u); }
extern "C" i32 g_edge_weight(const CSRGraph &g, u32 e) { return g.edge_weight(e); }
extern "C" u32 g_first_edge(const CSRGraph &g, u32 u) { return g.first_edge(u); }
extern "C" u32 g_first_invalid_edge(const CSRGraph &g, u32 u) { return g.first_invalid_edge(u); }
extern "C" u32 g_edge_target(const CSRGraph &g, u32 e) { return g.edge_target(e); }
extern "C" void g_adjacent(const CSRGraph &g, u32 u) { g.adjacent_nodes(u, [](const NodeID v, const EdgeWeight w) { kvc_visit(v, w); }); }
extern "C" void g_adjacent_nw(const CSRGraph &g, u32 u) { g.adjacent_nodes(u, [](const NodeID v) { kvc_visit(v, 0); }); }
extern "C" void g_adjacent_stop(const CSRGraph &g, u32 u) { g.adjacent_nodes(u, [](const NodeID v, const EdgeWeight w) { return kvc_visit_stop(v, w); }); }
extern "C" void g_adjacent_max(const CSRGraph &g, u32 u, u32 mx) { g.adjacent_nodes(u, mx, [](const NodeID v, const EdgeWeight w) { kvc_visit(v, w); }); }
extern "C" void g_neighbors(const CSRGraph &g, u32 u) { g.neighbors(u, [](const EdgeID e, const NodeID v, const EdgeWeight w) { kvc_visit_e(e, v, w); }); }
extern "C" void g_pfor_adjacent(const CSRGraph &g, u32 u, u32 mx, u32 grain) { g.pfor_adjacent_nodes(u, mx, grain, [](const NodeID v, const EdgeWeight w) { kvc_visit(v, w); }); }
extern "C" void g_update(CSRGraph &g) { g.update_total_node_weight(); }
extern "C" void g_remove_isolated(CSRGraph &g, u32 k) { g.remove_isolated_nodes(k); }
extern "C" u32 g_integrate_isolated(CSRGraph &g) { return g.integrate_isolated_nodes(); }
extern "C" void g_buckets(CSRGraph &g) { g.init_degree_buckets(); }
